"""The header layouts of the SEG-Y revision 1 standard (positions counted from 1, as the standard prints them), and the
value ranges the library documents for each field.  Used as the oracle by C06..C09 and C21."""

I32 = (4, -2**31, 2**31 - 1, None)
U32 = (4, 0, 2**31 - 1, None)          # non-negative
I16 = (2, -2**15, 2**15 - 1, None)
U16 = (2, 0, 2**15 - 1, None)


def E(*v):
    return (2, min(v), max(v), tuple(sorted(v)))


def R(lo, hi):
    return (2, lo, hi, None)


SCALAR = E(0, 1, 10, 100, 1000, 10000, -1, -10, -100, -1000, -10000)
SWEEP = E(0, 1, 2, 3, 4)
TAPER = E(0, 1, 2, 3)
UNIT = E(*range(-1, 10))

BINARY = [
    ('job_id_num', 3201, I32), ('line_num', 3205, U32), ('reel_num', 3209, I32),
    ('data_traces_per_ensemble', 3213, U16), ('auxiliary_traces_per_ensemble', 3215, U16),
    ('sample_interval', 3217, U16), ('original_field_sample_interval', 3219, U16),
    ('num_samples', 3221, U16), ('original_field_num_samples', 3223, U16),
    ('data_sample_format', 3225, E(1, 2, 3, 5, 8)), ('ensemble_fold', 3227, U16),
    ('trace_sorting', 3229, E(*range(-1, 10))), ('vertical_sum_code', 3231, U16),
    ('sweep_frequency_at_start', 3233, U16), ('sweep_frequency_at_end', 3235, U16), ('sweep_length', 3237, U16),
    ('sweep_type', 3239, SWEEP), ('sweep_trace_number', 3241, I16),
    ('sweep_trace_taper_length_at_start', 3243, U16), ('sweep_trace_taper_length_at_end', 3245, U16),
    ('taper_type', 3247, TAPER), ('correlated_data_traces', 3249, E(0, 1, 2)), ('binary_gain_recovered', 3251, E(0, 1, 2)),
    ('amplitude_recovery_method', 3253, E(0, 1, 2, 3, 4)), ('measurement_system', 3255, E(0, 1, 2)),
    ('impulse_signal_polarity', 3257, E(0, 1, 2)), ('vibratory_polarity_code', 3259, E(*range(9))),
    ('format_revision_num', 3501, E(0, 256)), ('fixed_length_trace_flag', 3503, E(0, 1)),
    ('num_extended_textual_headers', 3505, R(-1, 2**15 - 1)),
]

TRACE0 = [
    ('line_sequence_num', 1, I32), ('file_sequence_num', 5, I32), ('field_record_num', 9, I32), ('trace_num', 13, I32),
    ('energy_source_point_num', 17, I32), ('ensemble_num', 21, I32), ('ensemble_trace_num', 25, U32),
    ('trace_identification_code', 29, I16), ('num_vertically_summed_traces', 31, U16),
    ('num_horizontally_stacked_traces', 33, U16), ('data_use', 35, E(1, 2)), ('doc_nreceiver_offset', 37, I32),
    ('receiver_group_elevation', 41, I32), ('surface_elevation_at_source', 45, I32), ('source_depth_below_surface', 49, U32),
    ('datum_elevation_at_receiver_group', 53, U32), ('datum_elevation_at_source', 57, I32),
    ('water_depth_at_source', 61, I32), ('water_depth_at_group', 65, I32), ('elevation_scalar', 69, SCALAR),
    ('xy_scalar', 71, SCALAR), ('source_x', 73, I32), ('source_y', 77, I32), ('group_x', 81, I32), ('group_y', 85, I32),
    ('coordinate_units', 89, E(0, 1, 2, 3, 4)), ('weathering_velocity', 91, U16), ('subweathering_velocity', 93, U16),
    ('uphole_time_at_source', 95, U16), ('uphole_time_at_group', 97, U16), ('source_static_correction', 99, I16),
    ('group_static_correction', 101, I16), ('total_static', 103, I16), ('lag_time_a', 105, I16), ('lag_time_b', 107, I16),
    ('delay_recording_time', 109, I16), ('mute_start_time', 111, U16), ('mute_end_time', 113, U16), ('num_samples', 115, U16),
    ('sample_interval', 117, I16), ('gain_type_of_field_instruments', 119, U16), ('instrument_gain_constant', 121, I16),
    ('instrument_initial_gain', 123, I16), ('correlated', 125, E(1, 2)), ('sweep_frequency_at_start', 127, U16),
    ('sweep_frequency_at_end', 129, U16), ('sweep_length', 131, U16), ('sweep_type', 133, SWEEP),
    ('sweep_trace_taper_length_at_start', 135, U16), ('sweep_trace_taper_length_at_end', 137, U16), ('taper_type', 139, TAPER),
    ('alias_filter_frequency', 141, U16), ('alias_filter_slope', 143, I16), ('notch_filter_frequency', 145, U16),
    ('notch_filter_slope', 147, I16), ('low_cut_frequency', 149, U16), ('high_cut_frequency', 151, U16),
    ('low_cut_slope', 153, I16), ('high_cut_slope', 155, I16), ('year_recorded', 157, I16), ('day_of_year', 159, R(0, 366)),
    ('hour_of_day', 161, R(0, 24)), ('minute_of_hour', 163, R(0, 60)), ('second_of_minute', 165, R(0, 60)),
    ('time_basis_code', 167, E(0, 1, 2, 3, 4)), ('trace_weighting_factor', 169, U16),
    ('geophone_group_num_roll_switch_position_one', 171, I16), ('geophone_group_num_first_trace_original_field', 173, I16),
    ('geophone_group_num_last_trace_original_field', 175, I16), ('gap_size', 177, U16), ('over_travel', 179, E(0, 1, 2)),
]

TRACE1 = TRACE0 + [
    ('cdp_x', 181, I32), ('cdp_y', 185, I32), ('inline_number', 189, I32), ('crossline_number', 193, I32),
    ('shotpoint_number', 197, I32), ('shotpoint_scalar', 201, I16), ('trace_unit', 203, UNIT),
    ('transduction_constant_mantissa', 205, I32), ('transduction_constant_exponent', 209, I16), ('transduction_units', 211, UNIT),
    ('device_trace_identifier', 213, I16), ('time_scalar', 215, SCALAR), ('source_type', 217, R(-2**15, 9)),
    ('source_energy_direction', 219, I32), ('source_measurement_mantissa', 225, I32), ('source_measurement_exponent', 229, I16),
    ('source_measurement_unit', 231, E(-1, 0, 1, 2, 3, 4, 5, 6)),
]

FORMATS = {'binary': (BINARY, 3201, 400), 'trace0': (TRACE0, 1, 240), 'trace1': (TRACE1, 1, 240)}


def admissible(h, spec, v):
    """v is a value the field may hold"""
    size, lo, hi, enum = spec
    if enum is None or len(enum) == hi - lo + 1:
        return h.both(v >= lo, v <= hi)
    return h.either(*[v == x for x in enum])


def field_int(h, b, off, size, endian, signed=True):
    """integer held by bytes off..off+size of b"""
    s = b[off:off + size]
    v = 0
    for k in range(size):
        v = v + (s[k] if endian == '<' else s[size - 1 - k]) * (1 << (8 * k))
    return h.ite(v >= 1 << (8 * size - 1), v - (1 << (8 * size)), v) if signed else v

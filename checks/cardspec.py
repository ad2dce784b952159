"""The standard forty-card textual header: the fixed text of each card with its fields blank, and the place of every field
(argument name, column counted from 0, width).  Transcribed from the SEG-Y standard's card images as the library lays them out; the oracle of C14."""

CARDS = [
    ('C 1 CLIENT                        COMPANY                       CREW NO         ',
     [('client', 11, 22), ('company', 42, 21), ('crew_number', 72, 8)]),
    ('C 2 LINE            AREA                        MAP ID                          ',
     [('line', 9, 10), ('area', 25, 22), ('map_id', 55, 25)]),
    ('C 3 REEL NO           DAY-START OF REEL     YEAR      OBSERVER                  ',
     [('reel_number', 12, 9), ('day_start_of_reel', 40, 3), ('year', 49, 4), ('observer', 63, 17)]),
    ('C 4 INSTRUMENT: MFG            MODEL            SERIAL NO                       ',
     [('instrument_manufacturer', 20, 10), ('instrument_model', 37, 10), ('instrument_serial', 58, 22)]),
    ('C 5 DATA TRACES/RECORD        AUXILIARY TRACES/RECORD         CDP FOLD          ',
     [('data_traces_per_record', 23, 6), ('auxiliary_traces_per_record', 54, 7), ('cdp_fold', 71, 9)]),
    ('C 6 SAMPLE INTERVAL         SAMPLES/TRACE       BITS/IN      BYTES/SAMPLE       ',
     [('sample_interval', 20, 7), ('samples_per_trace', 42, 5), ('bits_per_inch', 56, 4), ('bytes_per_sample', 74, 6)]),
    ('C 7 RECORDING FORMAT        FORMAT THIS REEL        MEASUREMENT SYSTEM          ',
     [('recording_format', 21, 6), ('format_this_reel', 45, 6), ('measurement_system', 71, 9)]),
    ('C 8 SAMPLE CODE: FLOATING PT     FIXED PT     FIXED PT-GAIN     CORRELATED      ',
     [('sample_code_floating_point', 29, 3), ('sample_code_fixed_point', 42, 3), ('sample_code_fixed_point_gain', 60, 3), ('sample_code_correlated', 75, 5)]),
    ('C 9 GAIN  TYPE: FIXED     BINARY     FLOATING POINT     OTHER                   ',
     [('gain_type_fixed', 22, 3), ('gain_type_binary', 33, 3), ('gain_type_fixed_point_gain', 52, 3), ('gain_type_other', 62, 18)]),
    ('C10 FILTERS: ALIAS     HZ  NOTCH     HZ  BAND     -     HZ  SLOPE    -    DB/OCT',
     [('filters_alias_hz', 19, 4), ('filters_notch_hz', 33, 4), ('filters_band_lower_hz', 46, 4), ('filters_band_upper_hz', 51, 5), ('filters_slope_lower_db_per_oct', 66, 3), ('filters_slope_upper_db_per_oct', 70, 4)]),
    ('C11 SOURCE: TYPE            NUMBER/POINT        POINT INTERVAL                  ',
     [('source_type', 17, 10), ('source_number_per_point', 41, 6), ('source_point_interval', 63, 17)]),
    ('C12     PATTERN:                           LENGTH        WIDTH                  ',
     [('source_pattern', 17, 25), ('source_length', 50, 6), ('source_width', 63, 17)]),
    ('C13 SWEEP: START     HZ  END     HZ  LENGTH      MS  CHANNEL NO     TYPE        ',
     [('sweep_start_hz', 17, 4), ('sweep_end_hz', 29, 4), ('sweep_length_ms', 44, 5), ('sweep_channel_number', 64, 3), ('sweep_type', 73, 7)]),
    ('C14 TAPER: START LENGTH       MS  END LENGTH       MS  TYPE                     ',
     [('taper_start_length_ms', 24, 6), ('taper_end_length_ms', 45, 6), ('taper_type', 60, 20)]),
    ('C15 SPREAD: OFFSET        MAX DISTANCE        GROUP INTERVAL                    ',
     [('spread_offset', 19, 6), ('spread_max_distance', 39, 6), ('spread_group_interval', 61, 19)]),
    ('C16 GEOPHONES: PER GROUP     SPACING     FREQUENCY     MFG          MODEL       ',
     [('geophones_per_group', 25, 3), ('geophone_spacing', 37, 3), ('geophone_frequency', 51, 3), ('geophone_manufacturer', 59, 8), ('geophone_model', 74, 6)]),
    ('C17     PATTERN:                          LENGTH        WIDTH                   ',
     [('geophone_pattern', 17, 24), ('geophone_length', 49, 6), ('geophone_width', 62, 18)]),
    ('C18 TRACES SORTED BY: RECORD     CDP     OTHER                                  ',
     [('traces_sorted_by_record', 29, 3), ('traces_sorted_by_cdp', 37, 3), ('traces_sorted_by_other', 47, 33)]),
    ('C19 AMPLITUDE RECOVERY: NONE      SPHERICAL DIV       AGC    OTHER              ',
     [('amplitude_recovery_none', 29, 4), ('amplitude_recovery_spherical_div', 48, 5), ('amplitude_recovery_agc', 58, 2), ('amplitude_recovery_other', 67, 13)]),
    ('C20 MAP PROJECTION                    ZONE ID       COORDINATE UNITS            ',
     [('map_projection', 19, 18), ('zone_id', 46, 5), ('coordinate_units', 69, 11)]),
    ('C21 PROCESSING:                                                                 ',
     [('processing1', 16, 64)]),
    ('C22 PROCESSING:                                                                 ',
     [('processing2', 16, 64)]),
    ('C23                                                                             ',
     [('unassigned1', 4, 76)]),
    ('C24                                                                             ',
     [('unassigned2', 4, 76)]),
    ('C25                                                                             ',
     [('unassigned3', 4, 76)]),
    ('C26                                                                             ',
     [('unassigned4', 4, 76)]),
    ('C27                                                                             ',
     [('unassigned5', 4, 76)]),
    ('C28                                                                             ',
     [('unassigned6', 4, 76)]),
    ('C29                                                                             ',
     [('unassigned7', 4, 76)]),
    ('C30                                                                             ',
     [('unassigned8', 4, 76)]),
    ('C31                                                                             ',
     [('unassigned9', 4, 76)]),
    ('C32                                                                             ',
     [('unassigned10', 4, 76)]),
    ('C33                                                                             ',
     [('unassigned11', 4, 76)]),
    ('C34                                                                             ',
     [('unassigned12', 4, 76)]),
    ('C35                                                                             ',
     [('unassigned13', 4, 76)]),
    ('C36                                                                             ',
     [('unassigned14', 4, 76)]),
    ('C37                                                                             ',
     [('unassigned15', 4, 76)]),
    ('C38                                                                             ',
     [('unassigned16', 4, 76)]),
    ('C39                                                                             ',
     [('unassigned17', 4, 76)]),
    ('C40                                                                             ',
     [('end_marker', 4, 76)]),
]

END_MARKERS = {'REVISION_0': 'END EBCDIC', 'REVISION_1': 'END TEXTUAL HEADER'}

TUS = ['FieldType.cpp', 'BinaryDecimalNumber.cpp', 'BinaryGuid.cpp', 'Common.cpp']
ENTRIES = {
    'proof_date_show': dict(what='7 bytes -> dd.mm.yyyy hh:mm:ss (helpers and field) and yyyymmddhhmmss'),
    'proof_date_parts': dict(what='year, month, day, hour, minute, second'),
    'proof_date_rewrite': dict(what='7 bytes -> value -> the same 7 bytes, no other byte read or written'),
    'proof_date_read': dict(what='dd.mm.yyyy hh:mm:ss -> 7 bytes'),
    'proof_date_read_field': dict(what='dd.mm.yyyy hh:mm:ss -> date field'),
    'proof_date_read_1c': dict(what='yyyymmddhhmmss -> 7 bytes'),
    'proof_date_xml': dict(real=[r'to_string\(int'], what='7 bytes -> yyyy-mm-ddThh:mm:ss, years from 1000', thorough_only=True),
    'proof_date_xml_parts': dict(real=[r'to_string\(int'], what='7 bytes -> yyyy-mm-ddThh:mm:ss, each part arbitrary with the others fixed'),
}

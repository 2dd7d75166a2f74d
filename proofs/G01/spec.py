TUS = ['BinaryGuid.cpp', 'Common.cpp']
ENTRIES = {
    'proof_guid_text': dict(what='stored bytes -> 1C text -> stored bytes, all 2^128 values'),
    'proof_guid_text_helpers': dict(what='GUID_to_string/GUIDas1C/GUIDasMS/as_MS texts'),
    'proof_guid_parse': dict(what='36-character text -> stored bytes, every digit string'),
    'proof_guid_parse_flat': dict(what='32-character text -> stored bytes'),
    'proof_guid_reject': dict(what='every other length refused'),
    'proof_guid_order': dict(what='==, !=, >, is_empty'),
}

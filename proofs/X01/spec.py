TUS = ['Common.cpp', 'BinaryDecimalNumber.cpp', 'SystemClasses/System.SysUtils.cpp', 'SystemClasses/String.cpp']
ENTRIES = {
    'proof_xml_plain': dict(what='texts of any length up to 10^6 without special characters are unchanged'),
    'proof_xml_2': dict(what='every text of 0..2 bytes', level='bounded', bound='texts of 0..2 bytes, all byte values'),
    'proof_xml_3': dict(what='every text of 3 bytes', level='bounded', bound='texts of 3 bytes, all byte values'),
    'proof_xml_4': dict(what='every text of 4 bytes', level='bounded', bound='texts of 4 bytes, all byte values', thorough_only=True),
    'proof_xml_pairs': dict(what='two special characters at any two positions, all other bytes arbitrary', level='bounded', bound='texts of 24 bytes'),
    'proof_xml_many': dict(what='many special characters', level='bounded', bound='texts of 30 bytes, ten layouts of special characters'),
}

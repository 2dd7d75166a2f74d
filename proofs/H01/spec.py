TUS = ['cfapi/APIcfBase.cpp', 'Common.cpp', 'BinaryDecimalNumber.cpp']
ENTRIES = {
    'proof_header_write': dict(what='all 2^96 triples -> 31 bytes'),
    'proof_header_set': dict(what='setting one number in any header'),
    'proof_header_round': dict(what='create, then read: every triple of non-negative 32-bit numbers'),
    'proof_header_read_data': dict(what='reading the data length of any well-formed header'),
    'proof_header_read_page': dict(what='reading the page length of any well-formed header'),
    'proof_header_read_next': dict(what='reading the next address of any well-formed header'),
    'proof_header_correct': dict(what='is_correct, all headers'),
}
ASSUMPTIONS = ['std::stringstream with setw/setfill/hex formats a 32-bit number as documented; strtol (behind std::stoi) is modelled in engine/models.cpp']

TUS = ['Class_1CD.cpp', 'MemBlock.cpp', 'DetailedException.cpp', 'MessageRegistration.cpp', 'Common.cpp', 'BinaryDecimalNumber.cpp', 'SystemClasses/TStream.cpp', 'SystemClasses/String.cpp']
R = dict(replace=[(r'^boost::filesystem::current_path\(\)', 'no_path'), (r'^MemBlockManager::create_memblocks', 'pages_made'), (r'^boost::filesystem::absolute', 'no_path'), (r'boost::filesystem::path::operator=', 'keep_path')], real=[r'to_string\(int'])
ENTRIES = {
    'proof_open': dict(what='any header that is not of the newest format, any file size from 64 bytes', **R),
    'proof_open_odd': dict(what='a header of the newest format, any page size that does not exist', **R),
    'proof_short': dict(what='any header that is not of the newest format, files of less than 64 bytes', **R),
    'proof_short_new': dict(what='a header of the newest format, files of less than 64 bytes', **R),
}
for n in (4, 8, 16, 32, 64):
    ENTRIES[f'proof_open_{n}'] = dict(what=f'a header of the newest format with pages of {n} KB, any file size', **R)
ASSUMPTIONS = ['the file stream is given by its contract; opening the file itself (access rights, sharing) is not under contract',
               'what follows the acceptance (the objects and the tables) is the matter of V01, H01, S01']

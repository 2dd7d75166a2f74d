TUS = ['Class_1CD.cpp', 'MemBlock.cpp', 'DetailedException.cpp', 'MessageRegistration.cpp', 'Common.cpp', 'BinaryDecimalNumber.cpp', 'SystemClasses/TStream.cpp', 'SystemClasses/String.cpp']
ENTRIES = {}
for n in (4, 8, 16, 32, 64):
    ENTRIES[f'proof_read_{n}'] = dict(what=f'pages of {n} KB, a file of any number of pages, any page number, the page cached, changed or neither')
    ENTRIES[f'proof_copy_{n}'] = dict(what=f'pages of {n} KB, a file of any number of pages, any page number, any number of bytes')
    ENTRIES[f'proof_write_{n}'] = dict(what=f'pages of {n} KB, a file of any number of pages, any page number, any changed byte')
    ENTRIES[f'proof_new_{n}'] = dict(what=f'pages of {n} KB, a file of any number of pages, the page after the last one')
ENTRIES['proof_flush'] = dict(what='any contents, any of the pages held, any of them changed', level='bounded', bound='a file of three pages of 4 KB', unroll=8)
ENTRIES['proof_garbage'] = dict(what='any contents, any of the pages held, any of them changed, any times', level='bounded', bound='a file of three pages of 4 KB', unroll=8)
ENTRIES['proof_empty'] = dict(what='the cache of a database just opened', level='bounded', bound='0, 1, 3 and 6 pages', unroll=8)
ASSUMPTIONS = ['the file stream is given by its contract', 'a new page: the list of pages has room for one more (growing the list itself is the standard library)']

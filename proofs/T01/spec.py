TUS = ['cfapi/V8Time.cpp', 'SystemClasses/System.cpp', 'SystemClasses/TMemoryStream.cpp', 'SystemClasses/TStream.cpp', 'Common.cpp', 'BinaryDecimalNumber.cpp']
ENTRIES = {
    'proof_posix': dict(what='file time -> seconds since 1970, every moment of 800 years from 1601'),
    'proof_filetime': dict(what='seconds since 1970 -> file time'),
    'proof_local': dict(what='local <-> universal file time, every zone of up to 14 hours'),
    'proof_v8_to_filetime': dict(what='container timestamp -> file time'),
    'proof_v8_from_filetime': dict(what='file time -> container timestamp'),
    'proof_v8_round': dict(what='container timestamp -> file time -> container timestamp'),
    'proof_v8_1cd': dict(what='stored date of 7 bytes -> file time', native=False),
    'proof_v8_utime': dict(what='container timestamps -> times of the extracted file'),
}
R = [(r'^System::FileTime_to_POSIX\(', 'contract_posix'), (r'^System::LocalFileTimeToFileTime\(', 'contract_to_universal'), (r'^System::FileTimeToLocalFileTime\(', 'contract_to_local')]
for n in ENTRIES:
    ENTRIES[n]['solver_ms'] = 20000
    if '_v8_' in n:
        ENTRIES[n]['replace'] = R
ASSUMPTIONS = ['gmtime/localtime/timegm/mktime are inverse to each other as documented; the local zone is a constant offset (no daylight-saving change)']

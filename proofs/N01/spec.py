TUS = ['FieldType.cpp', 'BinaryDecimalNumber.cpp', 'BinaryGuid.cpp', 'Common.cpp']
ENTRIES = {}
for n in ['1_6', '7_8', '9', '10'] + list(range(11, 33)):
    lens = str(n).replace('_', '..')
    for k, w in (('show', 'stored digits -> text, every digit string'), ('store', 'text -> stored digits, every digit string of each shape')):
        ENTRIES[f'proof_num_{k}_{n}'] = dict(what=f'{w}; lengths {lens}, every precision', thorough_only=n not in ('1_6', '7_8', '9', '10'))
for n in (13, 15, 16, 17, 20, 31, 32):
    ENTRIES[f'proof_num_q_{n}'] = dict(what=f'length {n}, precisions 0 and 2, both directions', level='proof')
NOTE = 'quick: every digit string of lengths 1..10 with every precision and of 13,15,16,17,20,31,32 with precisions 0 and 2; thorough: lengths 1..32, every precision. Text shapes: every count of integer digits with full or no fraction and vice versa, signs alternating.'

"""CESR code tables, from the CESR specification tables the repository implements.

Fixed here so that a change of the repository's tables is seen.
"""
# code: hard, soft, extra, full, lead sizes
MATTER = {
    'A': (1, 0, 0, 44, 0), 'B': (1, 0, 0, 44, 0), 'C': (1, 0, 0, 44, 0), 'D': (1, 0, 0, 44, 0), 'E': (1, 0, 0, 44, 0),
    'F': (1, 0, 0, 44, 0), 'G': (1, 0, 0, 44, 0), 'H': (1, 0, 0, 44, 0), 'I': (1, 0, 0, 44, 0), 'J': (1, 0, 0, 44, 0),
    'K': (1, 0, 0, 76, 0), 'L': (1, 0, 0, 76, 0), 'M': (1, 0, 0, 4, 0), 'N': (1, 0, 0, 12, 0), 'O': (1, 0, 0, 44, 0),
    'P': (1, 0, 0, 124, 0), 'Q': (1, 0, 0, 44, 0), 'R': (1, 0, 0, 8, 0), 'S': (1, 0, 0, 16, 0), 'T': (1, 0, 0, 20, 0),
    'U': (1, 0, 0, 24, 0), 'V': (1, 0, 0, 4, 1), 'W': (1, 0, 0, 4, 0), 'X': (1, 3, 0, 4, 0), 'Y': (1, 7, 0, 8, 0),
    'Z': (1, 11, 0, 12, 0), 'a': (1, 0, 0, 44, 0), 'b': (1, 3, 0, 8, 0), '0A': (2, 0, 0, 24, 0), '0B': (2, 0, 0, 88, 0),
    '0C': (2, 0, 0, 88, 0), '0D': (2, 0, 0, 88, 0), '0E': (2, 0, 0, 88, 0), '0F': (2, 0, 0, 88, 0), '0G': (2, 0, 0, 88, 0),
    '0H': (2, 0, 0, 8, 0), '0I': (2, 0, 0, 88, 0), '0J': (2, 2, 1, 4, 0), '0K': (2, 2, 0, 4, 0), '0L': (2, 6, 1, 8, 0),
    '0M': (2, 6, 0, 8, 0), '0N': (2, 10, 1, 12, 0), '0O': (2, 10, 0, 12, 0), '1AAA': (4, 0, 0, 48, 0),
    '1AAB': (4, 0, 0, 48, 0), '1AAC': (4, 0, 0, 80, 0), '1AAD': (4, 0, 0, 80, 0), '1AAE': (4, 0, 0, 156, 0),
    '1AAF': (4, 4, 0, 8, 0), '1AAG': (4, 0, 0, 36, 0), '1AAH': (4, 0, 0, 100, 0), '1AAI': (4, 0, 0, 48, 0),
    '1AAJ': (4, 0, 0, 48, 0), '1AAK': (4, 0, 0, 4, 0), '1AAL': (4, 0, 0, 4, 0), '1AAM': (4, 0, 0, 4, 0),
    '1AAN': (4, 8, 0, 12, 0), '1AAO': (4, 0, 0, 4, 0), '1AAP': (4, 0, 0, 4, 0), '1__-': (4, 2, 0, 12, 0),
    '1___': (4, 0, 0, 8, 0), '2__-': (4, 2, 1, 12, 1), '2___': (4, 0, 0, 8, 1), '3__-': (4, 2, 0, 12, 2),
    '3___': (4, 0, 0, 8, 2), '4A': (2, 2, 0, None, 0), '5A': (2, 2, 0, None, 1), '6A': (2, 2, 0, None, 2),
    '7AAA': (4, 4, 0, None, 0), '8AAA': (4, 4, 0, None, 1), '9AAA': (4, 4, 0, None, 2), '4B': (2, 2, 0, None, 0),
    '5B': (2, 2, 0, None, 1), '6B': (2, 2, 0, None, 2), '7AAB': (4, 4, 0, None, 0), '8AAB': (4, 4, 0, None, 1),
    '9AAB': (4, 4, 0, None, 2), '4C': (2, 2, 0, None, 0), '5C': (2, 2, 0, None, 1), '6C': (2, 2, 0, None, 2),
    '7AAC': (4, 4, 0, None, 0), '8AAC': (4, 4, 0, None, 1), '9AAC': (4, 4, 0, None, 2), '4D': (2, 2, 0, None, 0),
    '5D': (2, 2, 0, None, 1), '6D': (2, 2, 0, None, 2), '7AAD': (4, 4, 0, None, 0), '8AAD': (4, 4, 0, None, 1),
    '9AAD': (4, 4, 0, None, 2), '4E': (2, 2, 0, None, 0), '5E': (2, 2, 0, None, 1), '6E': (2, 2, 0, None, 2),
    '7AAE': (4, 4, 0, None, 0), '8AAE': (4, 4, 0, None, 1), '9AAE': (4, 4, 0, None, 2), '4F': (2, 2, 0, None, 0),
    '5F': (2, 2, 0, None, 1), '6F': (2, 2, 0, None, 2), '7AAF': (4, 4, 0, None, 0), '8AAF': (4, 4, 0, None, 1),
    '9AAF': (4, 4, 0, None, 2), '4H': (2, 2, 0, None, 0), '5H': (2, 2, 0, None, 1), '6H': (2, 2, 0, None, 2),
    '7AAH': (4, 4, 0, None, 0), '8AAH': (4, 4, 0, None, 1), '9AAH': (4, 4, 0, None, 2),
}
# code: hard, soft, other index, full, lead sizes
INDEXER = {
    'A': (1, 1, 0, 88, 0), 'B': (1, 1, 0, 88, 0), 'C': (1, 1, 0, 88, 0), 'D': (1, 1, 0, 88, 0), 'E': (1, 1, 0, 88, 0),
    'F': (1, 1, 0, 88, 0), '0A': (2, 2, 1, 156, 0), '0B': (2, 2, 1, 156, 0), '2A': (2, 4, 2, 92, 0),
    '2B': (2, 4, 2, 92, 0), '2C': (2, 4, 2, 92, 0), '2D': (2, 4, 2, 92, 0), '2E': (2, 4, 2, 92, 0), '2F': (2, 4, 2, 92, 0),
    '3A': (2, 6, 3, 160, 0), '3B': (2, 6, 3, 160, 0),
}
COUNTER1 = {
    '-A': (2, 2, 4), '-B': (2, 2, 4), '-C': (2, 2, 4), '-D': (2, 2, 4), '-E': (2, 2, 4), '-F': (2, 2, 4), '-G': (2, 2, 4),
    '-H': (2, 2, 4), '-I': (2, 2, 4), '-L': (2, 2, 4), '--L': (3, 5, 8), '-T': (2, 2, 4), '--T': (3, 5, 8),
    '-U': (2, 2, 4), '--U': (3, 5, 8), '-V': (2, 2, 4), '--V': (3, 5, 8), '-W': (2, 2, 4), '--W': (3, 5, 8),
    '-Z': (2, 2, 4), '--Z': (3, 5, 8), '-_AAA': (5, 3, 8),
}
COUNTER2 = {
    '-A': (2, 2, 4), '--A': (3, 5, 8), '-B': (2, 2, 4), '--B': (3, 5, 8), '-C': (2, 2, 4), '--C': (3, 5, 8),
    '-D': (2, 2, 4), '--D': (3, 5, 8), '-E': (2, 2, 4), '--E': (3, 5, 8), '-F': (2, 2, 4), '--F': (3, 5, 8),
    '-G': (2, 2, 4), '--G': (3, 5, 8), '-H': (2, 2, 4), '--H': (3, 5, 8), '-I': (2, 2, 4), '--I': (3, 5, 8),
    '-J': (2, 2, 4), '--J': (3, 5, 8), '-K': (2, 2, 4), '--K': (3, 5, 8), '-L': (2, 2, 4), '--L': (3, 5, 8),
    '-M': (2, 2, 4), '--M': (3, 5, 8), '-N': (2, 2, 4), '--N': (3, 5, 8), '-O': (2, 2, 4), '--O': (3, 5, 8),
    '-P': (2, 2, 4), '--P': (3, 5, 8), '-Q': (2, 2, 4), '--Q': (3, 5, 8), '-R': (2, 2, 4), '--R': (3, 5, 8),
    '-S': (2, 2, 4), '--S': (3, 5, 8), '-T': (2, 2, 4), '--T': (3, 5, 8), '-U': (2, 2, 4), '--U': (3, 5, 8),
    '-V': (2, 2, 4), '--V': (3, 5, 8), '-W': (2, 2, 4), '--W': (3, 5, 8), '-X': (2, 2, 4), '--X': (3, 5, 8),
    '-Y': (2, 2, 4), '--Y': (3, 5, 8), '-Z': (2, 2, 4), '--Z': (3, 5, 8), '-a': (2, 2, 4), '--a': (3, 5, 8),
    '-b': (2, 2, 4), '--b': (3, 5, 8), '-c': (2, 2, 4), '--c': (3, 5, 8), '-_AAA': (5, 3, 8),
}
SMALLVRZDEX = ('4', '5', '6')
LARGEVRZDEX = ('7', '8', '9')
BEXDEX = ('4A', '5A', '6A', '7AAA', '8AAA', '9AAA')
TEXDEX = ('4B', '5B', '6B', '7AAB', '8AAB', '9AAB')
DECDEX = ('4H', '5H', '6H', '7AAH', '8AAH', '9AAH')
DIGDEX = ('E', 'F', 'G', 'H', 'I', '0D', '0E', '0F', '0G')
NONCEDEX = ('1AAP', '0A', 'a', 'E', 'F', 'G', 'H', 'I', '0D', '0E', '0F', '0G')
NUMDEX = ('M', '0H', 'R', 'N', 'S', 'T', '0A', 'U')
TAGDEX = ('0J', '0K', 'X', '1AAF', '0L', '0M', 'Y', '1AAN', '0N', '0O', 'Z')
LABELDEX = ('1AAP', '0J', '0K', 'X', '1AAF', '0L', '0M', 'Y', '1AAN', '0N', '0O', 'Z', '4A', '5A', '6A', '7AAA', '8AAA', '9AAA', 'V', 'W', '4B', '5B', '6B', '7AAB', '8AAB', '9AAB')
PREDEX = ('B', 'D', 'E', 'F', 'G', 'H', 'I', '0D', '0E', '0F', '0G', '1AAA', '1AAB', '1AAC', '1AAD', '1AAE', '1AAI', '1AAJ')
NONTRANSDEX = ('B', '1AAA', '1AAC', '1AAI')

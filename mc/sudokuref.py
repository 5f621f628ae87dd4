"""Boring Sudoku reference: plain exhaustive completion over candidate sets."""

ROWS = [[9 * r + c for c in range(9)] for r in range(9)]
COLS = [[9 * r + c for r in range(9)] for c in range(9)]
BOXES = [[27 * (b // 3) + 3 * (b % 3) + 9 * i + j
          for i in range(3) for j in range(3)] for b in range(9)]
GROUPS = ROWS + COLS + BOXES
PEERS = [sorted({x for g in GROUPS if c in g for x in g} - {c})
         for c in range(81)]


def parse(text):
    return [0 if ch in '.0' else int(ch) for ch in text if ch in '.0123456789']


def clash(givens):
    """True when two equal givens share a group."""
    return any(givens[c] and givens[c] == givens[p]
               for c in range(81) for p in PEERS[c])


def completions(givens, limit=None, allowed=None):
    """All completions (as tuples) of the givens, at most limit + 1 of them.

    allowed optionally restricts every cell to a set of digits."""
    if clash(givens):
        return []
    mask = [0] * 81
    for c in range(81):
        if givens[c]:
            mask[c] = 1 << givens[c]
        else:
            mask[c] = 0x3fe
        if allowed is not None:
            m = 0
            for d in allowed[c]:
                m |= 1 << d
            mask[c] &= m
    found = []

    def assign(ms, todo):
        """Propagate single-candidate cells; False on contradiction."""
        while todo:
            c = todo.pop()
            m = ms[c]
            if not m:
                return False
            for p in PEERS[c]:
                if ms[p] & m:
                    ms[p] &= ~m
                    if not ms[p]:
                        return False
                    if ms[p] & (ms[p] - 1) == 0:
                        todo.append(p)
        return True

    def search(ms):
        best, bc = 99, None
        for c in range(81):
            m = ms[c]
            if m & (m - 1):
                k = bin(m).count('1')
                if k < best:
                    best, bc = k, c
        if bc is None:
            found.append(tuple(m.bit_length() - 1 for m in ms))
            return limit is None or len(found) <= limit
        for d in range(1, 10):
            if ms[bc] >> d & 1:
                nxt = list(ms)
                nxt[bc] = 1 << d
                if assign(nxt, [bc]) and not search(nxt):
                    return False
        return True

    if 0 in mask:
        return []
    start = list(mask)
    if assign(start, [c for c in range(81) if mask[c] & (mask[c] - 1) == 0]):
        search(start)
    return found


# Puzzles with one completion each, chosen so that between them every
# deduction rule makes progress in some of them (data, not generated here).
EASY = parse('530070000600195000098000060800060003400803001'
             '700020006060000280000419005000080079')
HARD = [parse(s) for s in '''
000000008030200590200004010020091000096020380000380020040700006065003070900000000
400009300090200010003081007008000039000060000340000800500910700030002050007500002
120060009000078100900031000003005094009040670000007005302000901400000702000000000
000024009002001078050007030209000005003400000000000400000000000607080000080910600
070030950400000002100005000051000000300900060090006040500040090003020170000060000
036009040000060005085002000000085300890000051003490000000900210900030000060100580
024000006000000140007108030003602000006090008070003000000300600008006004000000270
000001504000070130300500002700600000095703280000004001900005007046020000103800000
360004800000700000020008504040030210000000000017020050103200060000003000009100082
230900706760000000009010040007040300406007109000090000000001600020000004600800000
530000000008009000097200000950003000060802030000006002041000900000001580700000006
800000000003600000070090200050007000000045700000100030001000068008500010090000400
'''.split()]
# puzzles whose rules, as the solver applies them, add up to many different totals
LADDER = [parse(s) for s in '''
002007900000050000000003045460009100300000006005600083680100000000080000004500200
000000000020000085509401003010036004060109000008000000900000526003500000100070030
000100700000290001590000000008006040000000360004000005300009008700081000100300920
007000400020980000000706005500010090002000067008000500850000004600000039001600000
002040085070095000004000000000002630009106200036900000000000900000820040860070500
007809200300010007000005100009060004060000000400000003040002500100000000023004090
000008400700600009900407020600000000030800000008054002000081070010000300000002004
000000018000930000000604720082000900005000006700100080008503004040080070000000000
000050080104800000072003000607000200000000060000070503001000000900004008700036092
000000000600950003000400020002008000400030500803000100351600000004002000009100080
000000090923008500000071802000085040000000000030290000106530000002800473070000000
000000090923008500000071802000085040000000000030290000106530000002800473070000000
000000760000080005000150000400000200080200090600000040100020003020539070004700006
000086000000009000500002403001005008794000000000030600000000000200800009100040850
000006100430000605000490000001000200060230580000801000020010000700080040000000003
000040000900170083000003402005010670000000000038090100803500000610034005000080000
000080070000000602423060000000000005530000000000049120009203004016000000000000201
000001003000478000760003204050000701009000800402000030307600018000827000500100000
000000205006000090200090400001052000080001030030040100825003600000000002900000857
000000205006000090200090400001052000080001030030040100825003600000000002900000857
000000400048067500059000020800020005000309000400080001060000350002850960007000000
000003000000500608300820091400080200000905000003010007870039002601004000000200000
000003000000500608300820091400080200000905000003010007870039002601004000000200000
000008000905041000400050730092000004040030070700000360029080007000970108000500000
000613750000800602009000000700400180100000003062001007000000900801009000036158000
030000400760400090080071006020500000410000073000003020200190060090006084006000010
000000000102060703050302080060083100008000200005190030020408090409030607000000000
000080300007062800040300050109800000050000030000005107080009060002430900001070000
000263000400800000007000000004905000002000400000070038009030010100000003030090056
000006000000000000009010405001007009276050000000800000900042050300080064850000300
060004000005000700000001038000090201008010000000207000290058004340700600000000000
002006000000009007070010405400000190005403700063000002801070050200600000000800900
000009070005370006009000008004530007070000030300047200100000500400025300050900000
000394000019200000000000003080000190002071005063000000401000000000050004670400080
000800009000010605020000000000086230003004700018070000135900070000030091070000000
000000049000090600008002000020000000900000010006481000060700100000310054080004006
000400000490108020807020000020001530900605008058200070000060401080704062000009000
000000160090800400000000090503001000019030000040080700000700000800024000002000678
000020000005600000340100005050002900430060010006000047000000302010008000508700000
000600001000015200850009000900003400030900100200700005003000640069008003000070009
007000200003020000100300700290030001500600008000204000000003080050000030006570900
003090000010800020060003040020000004000000070007000205700050000000240100005009083
003180000580000400006009108070500000000000004300200910020003000804000602000020070
000008010000700600704000900059000300070050400000060001016005002900800070000003000
000008010000700600704000900059000300070050400000060001016005002900800070000003000
000000350000006000100307900048000003020005060900040002010700600800000000750960400
000000350000006000100307900048000003020005060900040002010700600800000000750960400
060300070000070030100000500000800009009000340624000008000104000000005482008000003
000512400000600300020000050200004000010000000009007286030000001100090500006070900
000040500400006080520910000000800970030000060001700005000000007305000400602000013
000000003400000720600002050060900230008204600072001080040700009031000005800000000
000000000270001000000605040009280000000060504100034900008050000500002609000400010
007000031890000006024003000200000000000007400000900560601002000080400002000760010
006004003000862900200000070802049300010000200030006005003905000009000000400070000
000512400000600300020000050200004000010000000009007286030000001100090500006070900
200080300060002000400000070049000005007800000500140860000900000000056400030000600
524900000030000000100057003000001300905060007000070501890000200006000700300006000
050900400007010200200060000600700004870000031500001002000070003004080700002009060
028500030000261008005000004000700000300006001082005009054900800003000000200010000
000080000701020000840003060000000005960005480400002001300000006000900008008054030
000040700040002003005079026309001005070000000602000000006000800700005001010000030
000807400000000000012000009006000200490003008000400000080070065000029010004050000
050000100030000006000940000003000670000050008240600003600000080700003042000001000
000002650000093040000001802000030710700000005048050000604900000090320000013600000
008040000000100500009700020207000100000500000406002830090000060700803000000050200
005000070000900028001086000030804000100000002000710060000003500006090004200000800
005000070000900028001086000030804000100000002000710060000003500006090004200000800
000020000000501806801064000280005009000000060040700030090010004000000097004083600
000050040100260800090008000008030009030602400500000000003007100450800260080000000
010500004000000090503800000000206930030000010082109000000008705040000000100007020
000050040100260800090008000008030009030602400500000000003007100450800260080000000
'''.split()]
# the most symmetric completed grid
CYCLIC = [(3 * (r % 3) + r // 3 + c) % 9 + 1 for r in range(9)
          for c in range(9)]


def text(givens):
    return ''.join(map(str, givens))

"""The explorations behind each property: J(function, case, [parameters], tier, timeout).
tier 'q' jobs run in both tiers, 't' only in the thorough one."""


class J:
    def __init__(self, fn, case=0, params=(), tier='q', timeout=150, finding=None, steps=None):
        self.fn, self.case, self.params, self.tier = fn, case, list(params), tier
        self.timeout, self.finding = timeout, finding
        self.steps = steps

    def key(self):
        return '%s case %d (%s)' % (self.fn, self.case, ','.join(map(str, self.params)))


METRICS = ['hits', 'success', 'precision', 'recall', 'f1', 'r_precision', 'ap', 'rr', 'bpref',
           'dcg', 'dcg_burges', 'ndcg', 'ndcg_burges']
PROPS = {}


def prop(pid, bounds, assume=(), covers=None):
    def deco(f):
        PROPS[pid] = dict(jobs=list(f()), bounds=bounds, assume=list(assume))
        return f
    return deco


RANK = ('One query; every judgement is any u32 or missing, every cutoff is any u64, and the document ids '
        'are fixed so that id order and rank order differ.')


@prop('C01', 'Up to 4 records with any-byte query and document ids (or 2 queries x 2-3 documents for longer histories) '
             'and any score; every query of the result and every absent byte pair looked up. '
             'String ids up to 2 characters. 60 (thorough 150) fixed records and one of any 16-bit document id and any score; 300 records and '
             'a lookup of any 16-bit id. 70000 fixed judgements and one among, around or beyond them.')
def _():
    yield J('h_huge_store', 0, (70000,))
    for c in (0, 1):
        yield J('h_store', c, (2, 0, 0))
        yield J('h_store', c, (3, 2, 2))
        yield J('h_from_records', c, (2, 0, 0))
    yield J('h_store_str', 0, (1,))
    yield J('h_store_long', 0, (60, 1, 0))
    yield J('h_store_long', 1, (60, 1, 0))
    for c in (0, 1):
        yield J('h_store_long', c, (300, 0, 1))
        yield J('h_store_long', c, (150, 1, 0), 't', 800)
    for c in (0, 1):
        yield J('h_store', c, (3, 0, 0), 't', 800)
        yield J('h_store', c, (4, 2, 2), 't', 800)
    yield J('h_store_str', 0, (2,), 't', 800)


@prop('C02', 'One query: up to 3 (quick) or 4 (thorough) documents with any-byte ids and any score (f64 bit patterns other '
             'than NaN, or u32); 24 documents of which 2 have any score, 200, 300 and 1100 of which one has; 35000 fixed ones for each of 2 queries.')
def _():
    yield J('h_huge_store', 0, (70000,))
    yield J('h_ranking_long', 0, (1100, 1))
    for c in (0, 1):
        for n in (2, 3):
            yield J('h_ranking', c, (n,))
        yield J('h_ranking_long', c, (24, 2))
        yield J('h_ranking_long', c, (40, 1))
        yield J('h_ranking_long', c, (200, 1))
        yield J('h_ranking', c, (4,), 't', 600)
        yield J('h_ranking_long', c, (60, 2), 't', 600)
    yield J('h_ranking_long', 0, (300, 1))
    yield J('h_ranking_long', 1, (300, 1), 't', 600)
    yield J('h_ranking_long', 1, (1100, 1), 't', 600)


@prop('C03', 'Histories of up to 3 (quick) or 4 (thorough) records with any-byte ids and any scores, through the builder '
             'and through from_records. 60 (thorough 300) fixed records and one of any 16-bit ids; 70000 and one among, around or beyond them.')
def _():
    yield J('h_huge_store', 0, (70000,))
    for c in (0, 1):
        yield J('h_store_long', c, (60, 1, 0))
        yield J('h_store_long', c, (300, 1, 0), 't', 800)
    for c in (0, 1):
        yield J('h_duplicates', c, (2, 0, 0))
        yield J('h_duplicates', c, (3, 2, 2))
        yield J('h_from_records', c, (2, 0, 0))
        yield J('h_from_records', c, (3, 2, 2))
        yield J('h_duplicates', c, (3, 0, 0), 't', 800)
        yield J('h_duplicates', c, (4, 2, 2), 't', 800)


@prop('C04', 'Up to 2 judged and 2 predicted queries (3 and 2 in the thorough tier) with any 16-bit query ids; each of the '
             'thirteen metrics; 40 (thorough 100) fixed queries plus a judged and a predicted one of any 16-bit id; 70000 queries of which one may lack judgements.')
def _():
    yield J('h_huge_queries', 0, (70000, 69999))
    yield J('h_huge_queries', 0, (70000, 100), 't', 600)
    for m in range(13):
        yield J('h_queries', m, (2, 2))
        yield J('h_dispatch', m, ())
    yield J('h_queries_many', 0, (40, 17))
    yield J('h_queries_many', 1, (40, 39))
    yield J('h_queries_many', 0, (100, 60), 't', 600)
    yield J('h_queries_many', 1, (100, 3), 't', 600)
    for m in (2, 6, 11):
        yield J('h_queries', m, (3, 2), 't', 600)
        yield J('h_queries', m, (2, 3), 't', 600)


@prop('C05', '1 to 4, 8 and 24 queries with any integer scores (one-document DCG), 30 and 1100 (thorough 4200) of which one has any, and every metric over 2 (thorough 3) queries with any '
             'judgements of 2 documents each, in exact real arithmetic; 3 to 5 queries with any reciprocal ranks in double arithmetic; 70000 queries of which one has any score.')
def _():
    yield J('h_huge_queries', 0, (70000, 69999, 1))
    for n in (1, 2, 3, 4, 8):
        yield J('h_aggregates', 0, (n,))
    for m in range(13):
        yield J('h_aggregates_metric', m, (2,))
    yield J('h_variance', 0, (1, 6))
    yield J('h_variance', 0, (3, 6))
    yield J('h_variance', 0, (5, 3))
    yield J('h_aggregates', 0, (24,))
    yield J('h_aggregates_many', 0, (30, 7))
    yield J('h_aggregates_many', 0, (1100, 1050))
    yield J('h_aggregates_many', 0, (1100, 3))
    yield J('h_aggregates_many', 0, (4200, 4100), 't', 600)
    for m in range(13):
        yield J('h_aggregates_metric', m, (3,), 't', 600)


# few judged, few relevant, all relevant, first half unjudged; nothing unretrieved
SHAPES = ((3, 0, 0, 0), (12, 0, 3, 9), (12, 2, 3, 17), (12, 0, 3, 25), (20, 1, 2, 33))
SHAPED = (' Sparse, mostly non-relevant, all relevant and half unjudged lists of 12 and 20; 1100 ranked documents of which one has a '
          'judgement of 0 to 3 or none, with cutoffs around the length.')
BIN = RANK + SHAPED + ' All patterns of 3 ranked and 1 unretrieved document; 12 ranked and 3 unretrieved documents of which 3 are free.'


HUGE = ' 70000 ranked documents, most or only late ones relevant, one of them free%s.'


@prop('C06', BIN + ' 40 and 100 ranked documents of which 2 or 1 are free (thorough 300 of which one is).' + HUGE % '')
def _():
    for m in (0, 1, 2, 3, 4):
        yield J('h_huge_metric', m, (70000, m % 2, 65540 + 1500 * (m % 2)))
        yield J('h_huge_metric', m, (70000, 1 - m % 2, 67041 - m), 't', 600)
        yield J('h_binary', m, (1, 1, 0, 0))
        yield J('h_binary', m, (3, 1, 0, 0))
        yield J('h_binary', m, (12, 3, 3, 1))
        yield J('h_binary', m, (40, 8, 2, 3))
        yield J('h_binary', m, (100, 10, 1, 3))
        yield J('h_binary', m, (100, 10, 2, 4), 't', 600)
        yield J('h_binary', m, (300, 5, 1, 3), 't', 600)
        for j in SHAPES:
            yield J('h_binary', m, j)
        yield J('h_binary', m, (1100, 3, 1, 1, 1), 'q' if m != 6 else 't', 300)
        yield J('h_binary', m, (4, 2, 0, 0), 't', 600)
        yield J('h_binary', m, (30, 4, 3, 2), 't', 600)


@prop('C07', BIN + ' 40 and 100 ranked documents of which 2 or 1 are free (thorough 300 of which one is).' + HUGE % ' (few relevant for average precision)')
def _():
    yield J('h_huge_metric', 5, (70000, 0, 65540))
    yield J('h_huge_metric', 7, (70000, 1, 65999))
    yield J('h_huge_metric', 6, (70000, 2, 65537))
    yield J('h_huge_metric', 6, (70000, 2, 5), 't', 600)
    yield J('h_huge_metric', 5, (70000, 1, 1000), 't', 600)
    for m in (5, 6, 7):
        yield J('h_binary', m, (1, 1, 0, 0))
        yield J('h_binary', m, (3, 1, 0, 0))
        yield J('h_binary', m, (12, 3, 3, 1))
        yield J('h_binary', m, (40, 8, 2, 3))
        yield J('h_binary', m, (100, 10, 1, 3))
        yield J('h_binary', m, (100, 10, 2, 4), 't', 600)
        yield J('h_binary', m, (300, 5, 1, 3), 't', 600)
        for j in SHAPES:
            yield J('h_binary', m, j)
        yield J('h_binary', m, (1100, 3, 1, 1, 1), 'q' if m != 6 else 't', 300)
        yield J('h_binary', m, (4, 2, 0, 0), 't', 600)
        yield J('h_binary', m, (30, 4, 3, 2), 't', 600)


@prop('C08', BIN + ' 40, 100 and 300 ranked documents of which 2, 2 and 1 are free.' + HUGE % '')
def _():
    yield J('h_huge_metric', 8, (70000, 0, 65540))
    yield J('h_huge_metric', 8, (70000, 1, 67000))
    yield J('h_binary', 8, (1, 1, 0, 0))
    yield J('h_binary', 8, (3, 1, 0, 0))
    yield J('h_binary', 8, (3, 2, 0, 0))
    yield J('h_binary', 8, (4, 2, 0, 0))
    for s in (0, 1, 2, 3):
        yield J('h_binary', 8, (12, 3, 3, s))
    yield J('h_binary', 8, (20, 6, 4, 1))
    yield J('h_binary', 8, (40, 8, 2, 3))
    yield J('h_binary', 8, (100, 10, 2, 3))
    yield J('h_binary', 8, (300, 20, 1, 3))
    yield J('h_binary', 8, (20, 300, 1, 3))
    for j in SHAPES:
        yield J('h_binary', 8, j)
    yield J('h_binary', 8, (60, 0, 2, 33))
    yield J('h_binary', 8, (1100, 3, 1, 1, 1))
    yield J('h_binary', 8, (5, 2, 0, 0), 't', 600)
    yield J('h_binary', 8, (30, 4, 4, 2), 't', 600)


DCGA = ['The logarithms and powers of two of symbolic arguments are case-split or bounded as described in DESIGN.md; '
        'sums are exact reals compared within 1e-9.']


@prop('C09', RANK + ' 3 ranked and 1 unretrieved document, all patterns; Burges gains 2^j as exact reals with j up to 1000 '
             'in sums, and one document with any u32 judgement bit-precisely; every judgement up to 200 (Burges 300, thorough 1100 both) and around the powers '
             'of two one by one; 40 and 100 ranked documents of which one is free.' + SHAPED + HUGE % '', DCGA)
def _():
    yield J('h_huge_metric', 9, (70000, 0, 65540))
    yield J('h_huge_metric', 11, (70000, 1, 67000))
    yield J('h_huge_metric', 9, (70000, 1, 67000), 't', 600)
    yield J('h_huge_metric', 11, (70000, 0, 100), 't', 600)
    for c in (0, 1):
        yield J('h_dcg', c, (2, 1, 0, 0))
        yield J('h_dcg', c, (3, 1, 0, 0))
        yield J('h_dcg', c | 2, (3, 1, 0, 0))
        yield J('h_dcg', c, (10, 2, 2, 1))
        yield J('h_dcg_range', c, ())
        yield J('h_gain', c, (200 if c == 0 else 300,))
        yield J('h_gain', c, (0,))
        yield J('h_gain', c, (1100,), 't', 600)
    for c in (0, 1):
        yield J('h_dcg', c, (3, 0, 0, 0))
        yield J('h_dcg', c | 2, (1100, 3, 1, 1, 1))
        for j in SHAPES[1:]:
            yield J('h_dcg', c | 2, j[:2] + (1,) + j[3:])
    for c in (2, 0, 3):
        yield J('h_dcg', c, (40, 4, 1, 1))
        yield J('h_dcg', c, (100, 4, 1, 1))
    for c in (0, 1):
        yield J('h_dcg', c, (4, 1, 0, 0), 't', 600)
        yield J('h_dcg', c, (20, 2, 3, 1), 't', 600)


@prop('C10', RANK + ' 3 ranked and 1 unretrieved document, all patterns; judgements up to 1000 for the Burges gain '
             '(larger ones: known finding); 4 ranked documents with judgements 0 to 3; 40 and 100 ranked documents of which one is free.' + SHAPED + HUGE % '', DCGA)
def _():
    yield J('h_huge_metric', 10, (70000, 0, 65540))
    yield J('h_huge_metric', 12, (70000, 1, 67000))
    yield J('h_huge_metric', 10, (70000, 1, 67000), 't', 600)
    yield J('h_huge_metric', 12, (70000, 0, 100), 't', 600)
    for c in (0, 1):
        yield J('h_ndcg', c, (2, 1, 0, 0))
        yield J('h_ndcg', c, (3, 1, 0, 0))
        yield J('h_ndcg', c | 2, (3, 1, 0, 0))
    yield J('h_ndcg', 0, (8, 2, 2, 1))
    yield J('h_ndcg', 3, (8, 2, 2, 1))
    yield J('h_ndcg', 2, (4, 1, 0, 0))
    for c in (0, 1):
        yield J('h_ndcg', c, (3, 0, 0, 0))
        yield J('h_ndcg', c | 2, (1100, 3, 1, 1, 1))
        for j in SHAPES[1:]:
            yield J('h_ndcg', c | 2, j[:2] + (1,) + j[3:])
    for c in (2, 3):
        yield J('h_ndcg', c, (40, 4, 1, 1))
    yield J('h_ndcg', 2, (100, 4, 1, 1))
    yield J('h_ndcg', 3, (100, 4, 1, 1), 't', 600)
    yield J('h_ndcg', 3, (4, 1, 0, 0), 't', 600)
    for c in (0, 1):
        yield J('h_ndcg', c, (4, 0, 0, 0), 't', 800)
    yield J('h_ndcg', 0, (16, 3, 2, 1), 't', 800)
    yield J('h_ndcg', 3, (16, 3, 2, 1), 't', 800)


@prop('C11', RANK + ' 2 and 3 ranked documents and 1 unretrieved; every metric; judgements up to 1000 for the Burges gain '
             '(larger ones: known finding). Sparse lists of 12 and 300 ranked documents of which one is free, '
             'and one of 70000.')
def _():
    for m in (2, 3, 4, 5, 8, 10, 12):
        yield J('h_huge_metric', m, (70000, 0, 65540))
    yield J('h_huge_metric', 6, (70000, 2, 65537))
    yield J('h_huge_metric', 7, (70000, 1, 65999))
    for m in range(13):
        yield J('h_range', m, (2, 1, 0, 0))
    for m in range(13):
        yield J('h_range', m, (300, 3, 1, 1, 1))
    for m in range(9):
        yield J('h_range', m, (3, 0, 0, 0))
        yield J('h_range', m, (12, 0, 3, 9))
        yield J('h_range', m, (3, 1, 0, 0))
        yield J('h_range', m, (10, 2, 3, 1))
    yield J('h_ndcg_extreme', 0, (), finding='ndcg_burges-overflow')
    for m in range(9, 13):
        yield J('h_range', m, (3, 1, 0, 0), 't', 600)
    for m in range(9):
        yield J('h_range', m, (4, 1, 0, 0), 't', 600)


@prop('C12', 'Up to 3 documents with any judgements and any two score vectors (f64 bit patterns) ordered alike, records '
             'added in two orders; documents below any cutoff replaced, unjudged ones judged 0, unretrieved ones dropped or '
             'unjudged ones appended, for 3 ranked documents.')
def _():
    for m in range(13):
        yield J('h_monotone', m, (2, 0))
        yield J('h_monotone', m, (3, 0 if m in (5, 8) else 2))
    for m in range(13):
        for tr in range(4):
            if tr == 0 and m in (5, 8):
                continue
            if tr in (1, 2) and m == 8:
                continue
            if tr == 3 and m in (2, 4):
                continue
            yield J('h_irrelevant', m + 16 * tr, (3 if m < 9 else 2,))
    for m in (0, 6, 11):
        yield J('h_monotone', m, (4, 0), 't', 600)
    yield J('h_irrelevant', 6, (4,), 't', 600)


@prop('C13', 'Strings: any of up to 3 bytes (quick 2); each name followed by any byte, or by @ and any 2 bytes (thorough), '
             'each name with any byte inserted or replaced anywhere; @ with up to 21 digits around usize::MAX with 5 free. '
             'Printing: every metric, cutoffs up to 999 (three metrics 9999, thorough 99999) and around every power of two.')
def _():
    yield J('h_parse_free', 0, (0,))
    yield J('h_parse_free', 0, (1,))
    yield J('h_parse_free', 0, (2,))
    for n in range(13):
        yield J('h_parse_suffix', n, (1, 0))
        yield J('h_parse_suffix', n, (1, 1))
        yield J('h_parse_mutated', n, (0,))
        yield J('h_parse_mutated', n, (1,))
        yield J('h_print', n, (0, 999))
        yield J('h_print', n, (0, 0, 1))
    for n in (0, 6, 12):
        yield J('h_parse_digits', n, (20, 4))
        yield J('h_parse_digits', n, (21, 2))
        yield J('h_print', n, (0, 9999))
    yield J('h_parse_free', 0, (3,), 't', 600)
    for n in range(13):
        yield J('h_parse_suffix', n, (2, 1), 't', 600)
        yield J('h_print', n, (0, 99999), 't', 600)
    yield J('h_parse_digits', 6, (20, 7), 't', 600)


@prop('C14', 'Lines of up to 6 (thorough 7) arbitrary characters of an alphabet covering white space, digits, signs and letters; each '
             'column any 2 bytes; fourth columns of 4 arbitrary characters and all integers around the i32 limits; 3 lines '
             'of which one is malformed or repeated; 30 and 60 lines of which one is free; columns of up to 300 characters; '
             'every line of up to 5 columns of 3 to 9 telling values each.')
def _():
    yield J('h_trec_ascii', 0, (5,))
    yield J('h_trec_mix', 0, (0, 5))
    for col in range(4):
        yield J('h_trec_column', 0, (col, 2))
    yield J('h_trec_number', 0, (3, 0))
    yield J('h_trec_number', 0, (4, 0))
    yield J('h_trec_number', 0, (3, 1))
    yield J('h_trec_extreme', 0, (4,))
    yield J('h_trec_extreme', 1, (4,))
    for bad in (0, 1, 2):
        yield J('h_trec_lines', 0, (3, bad))
    yield J('h_trec_lines', 0, (0, 0))
    yield J('h_trec_many', 0, (30, 15))
    yield J('h_trec_many', 0, (60, 0))
    for w in ((20, 1), (70, 3), (300, 2)):
        yield J('h_trec_wide', 0, w)
    yield J('h_trec_ascii', 0, (7,), 't', 600)
    yield J('h_trec_number', 0, (5, 0), 't', 600)


@prop('C15', 'As C14 for run lines: columns of any 2 bytes, scores of any 3 characters, 3 lines of which one is '
             'malformed or repeated; 30 and 60 lines of which one is free; columns of up to 300 characters; '
             'every line of up to 5 columns of 3 to 9 telling values each.')
def _():
    yield J('h_trec_ascii', 1, (5,))
    yield J('h_trec_mix', 1, (0, 4))
    yield J('h_trec_mix', 1, (5, 5))
    yield J('h_trec_mix', 1, (6, 6), 't', 600)
    for col in range(5):
        yield J('h_trec_column', 1, (col, 2))
    yield J('h_trec_number', 1, (2, 0))
    yield J('h_trec_number', 1, (3, 0))
    yield J('h_trec_number', 1, (2, 1))
    for bad in (0, 1, 2):
        yield J('h_trec_lines', 1, (3, bad))
    yield J('h_trec_lines', 1, (0, 0))
    yield J('h_trec_many', 1, (30, 29))
    yield J('h_trec_many', 1, (60, 20))
    for w in ((20, 1), (70, 3), (300, 2)):
        yield J('h_trec_wide', 1, w)
    yield J('h_trec_ascii', 1, (7,), 't', 600)
    yield J('h_trec_number', 1, (4, 0), 't', 800)


@prop('C16', 'Up to 3 maps of up to 2 keys, 2 of up to 3, with any-byte keys and any values; 3 maps of 13 or 60 keys with one or two '
             'insertions of any key; maps of 70000 keys of which one may differ.')
def _():
    yield J('h_huge_maps', 0, (70000, 69990))
    yield J('h_maps', 0, (0, 1))
    yield J('h_maps', 0, (1, 3))
    yield J('h_maps', 0, (2, 2))
    yield J('h_maps', 0, (3, 2))
    yield J('h_maps', 0, (2, 3))
    yield J('h_maps', 1, (2, 2))
    yield J('h_maps', 1, (2, 3))
    yield J('h_maps_long', 0, (3, 13, 1))
    yield J('h_maps_long', 1, (2, 13, 1))
    yield J('h_maps_long', 0, (2, 26, 1))
    yield J('h_maps_long', 0, (3, 60, 1))
    yield J('h_maps_long', 0, (3, 13, 2), 't', 600)
    yield J('h_maps', 0, (3, 3), 't', 600)
    yield J('h_maps', 0, (4, 2), 't', 600)


STAT = ['Arithmetic on symbolic scores is exact (reals), so rounding is outside the bound except in the bit-level jobs.',
        "The distribution functions of statrs are uninterpreted functions with their contract (range, symmetry, monotonicity, failure domain); "
        'what the code passes to them and does with the result is checked, their numerical accuracy is not.']


@prop('C17', '2 to 7 (thorough 10) pairs of any real scores in [-1000,1000], 20 to 200 pairs of which up to 4 are free.', STAT)
def _():
    for n in (2, 3, 4, 5, 6, 7):
        yield J('h_ttest', 0, (n, 0, 0))
    yield J('h_ttest', 0, (20, 2, 0))
    yield J('h_ttest', 0, (50, 3, 1))
    yield J('h_ttest', 0, (30, 4, 2))
    yield J('h_ttest', 0, (128, 2, 0))
    yield J('h_ttest', 0, (200, 1, 1))
    yield J('h_ttest_swap', 0, (2,))
    yield J('h_ttest_swap', 0, (3,))
    yield J('h_ttest_swap', 0, (5,))
    yield J('h_ttest', 0, (10, 0, 0), 't', 600)
    yield J('h_ttest', 0, (14, 0, 0), 't', 800)
    yield J('h_ttest_swap', 0, (8,), 't', 600)


@prop('C18', 'Paired t-test: 0 to 5 pairs of any reals, 2 pairs of any finite doubles from a set of extremes bit-precisely; '
             'ANOVA and Tukey HSD: 0-3 topics x 0-3 systems of any reals, ragged records of any length up to 3, extreme doubles '
             'for 2x2; randomised Tukey and bootstrap: 0-2 samples.', STAT)
def _():
    for n in (0, 1, 2, 3, 4):
        yield J('h_ttest', 0, (n, 0, 0))
    yield J('h_ttest_special', 0, (2,))
    yield J('h_ttest_extreme', 0, (2,), finding='ttest-range')
    for c in (0, 1):
        yield J('h_single_system', c, (2, 1), finding='single-system')
        yield J('h_single_system', c, (3, 0), finding='single-system')
        yield J('h_no_residual', c, (2, 2), finding='no-residual')
        yield J('h_no_residual', c, (3, 3), finding='no-residual')
    yield J('h_anova_extreme', 0, (2, 2, 4), finding='anova-range')
    for a, b in ((0, 2), (1, 2), (1, 1), (2, 2), (3, 2), (2, 3), (3, 3)):
        yield J('h_anova', 0, (a, b, 0, 0, 0))
        yield J('h_tukey', 0, (a, b, 0, 0, 0))
    for c in (0, 1, 2):
        yield J('h_ragged', c, (3, 3))
    yield J('h_anova_special', 0, (2, 2, 4))
    yield J('h_bootstrap', 0, (0, 1, 0, 0))
    yield J('h_bootstrap', 0, (1, 1, 0, 0))
    yield J('h_bootstrap', 0, (2, 1, 0, 0))
    yield J('h_rtukey', 0, (0, 2, 0, 0, 1))
    yield J('h_rtukey', 0, (1, 2, 0, 0, 0))
    yield J('h_rtukey', 0, (2, 1, 0, 0, 1))
    yield J('h_ttest_special', 0, (3,), 't', 600)


@prop('C19', 'Every double as significance level (bit-precise acceptance), any real level in (0,1] for the value; 2 to 5 pairs; '
             '2x2 to 4x3 score matrices of any reals.', STAT)
def _():
    yield J('h_margin', 0, (2,))
    yield J('h_margin', 0, (3,))
    yield J('h_margin_bits', 0, ())
    for c in (0, 1):
        yield J('h_margin_nan', c, (), finding='ttest-nan')
    yield J('h_anova_margin_nan', 0, (), finding='anova-nan')
    yield J('h_anova_margin', 0, (2, 2))
    yield J('h_anova_margin', 0, (3, 2))
    yield J('h_anova_margin', 0, (3, 3))
    yield J('h_anova_margin_bits', 0, ())
    yield J('h_margin', 0, (5,))
    yield J('h_anova_margin', 0, (4, 3))
    yield J('h_margin', 0, (8,), 't', 600)
    yield J('h_anova_margin', 0, (4, 4), 't', 600)


RND = ['Random draws are nondeterministic: every value the generator could return (12 arbitrary bits reduced to the range) in every order.']


@prop('C20', 'Any real scores: up to 2 pairs with 3 resamples, 3 pairs with 1; fixed scores: 3 to 5 pairs with 1 or 2 '
             'resamples; every draw.', STAT + RND)
def _():
    yield J('h_bootstrap', 0, (0, 1, 0, 0))
    yield J('h_bootstrap', 0, (1, 1, 0, 0))
    for b in (0, 1, 2, 3):
        yield J('h_bootstrap', 0, (2, b, 0, 0))
    yield J('h_bootstrap', 0, (3, 1, 1, 0))
    yield J('h_bootstrap', 1, (3, 2, 0, 1))
    yield J('h_bootstrap', 1, (4, 1, 0, 1))
    yield J('h_bootstrap', 1, (4, 1, 0, 3))
    yield J('h_bootstrap', 1, (5, 1, 0, 2))
    yield J('h_bootstrap_invariant', 0, (2, 2, 0, 0))
    yield J('h_bootstrap_invariant', 2, (2, 2, 0, 0))
    yield J('h_bootstrap_invariant', 1, (3, 2, 0, 0))
    yield J('h_bootstrap_invariant', 3, (3, 1, 0, 0))
    yield J('h_bootstrap', 0, (3, 1, 0, 0), 't', 800)
    yield J('h_bootstrap', 1, (3, 3, 0, 1), 't', 800)


@prop('C21', 'Any real scores: 2 topics x 2 systems with 2 iterations, 3x2 with 2, 2x3 with 3 free scores; fixed scores: 4x3; every draw.',
      STAT + RND)
def _():
    yield J('h_rtukey', 0, (2, 1, 0, 0, 1))
    yield J('h_rtukey', 0, (1, 2, 0, 0, 0))
    yield J('h_rtukey', 0, (2, 2, 0, 0, 0))
    yield J('h_rtukey', 0, (2, 2, 0, 0, 2))
    yield J('h_rtukey', 0, (3, 2, 0, 0, 2))
    yield J('h_rtukey', 0, (2, 3, 3, 0, 1))
    yield J('h_rtukey', 0, (4, 3, 1000, 0, 1))
    yield J('h_rtukey', 0, (2, 3, 1000, 1, 2))
    yield J('h_rtukey', 0, (1, 4, 1000, 1, 1))
    yield J('h_rtukey_order', 0, (2, 3, 0, 0, 1), timeout=200)
    yield J('h_rtukey', 0, (2, 4, 1000, 1, 1), 't', 800)
    yield J('h_rtukey', 0, (2, 3, 0, 0, 1), 't', 800)


@prop('C22', 'Bootstrap: any real scores of 2-3 pairs, any u64 state, 2 resamples; randomised Tukey HSD likewise; the '
             'documented defaults of the constructors.', STAT + RND)
def _():
    for c in (0, 1):
        yield J('h_state_given', c, (2, 1))
        yield J('h_state_given', c, (3, 2))
        yield J('h_state_given', c, (3, 0))
        yield J('h_state_drawn', c, (2, 1))
        yield J('h_state_drawn', c, (3, 0))
        yield J('h_defaults', c, ())
        yield J('h_state_drawn', c, (3, 2), 't', 600)


@prop('C23', 'Score matrices of any reals in [-1000,1000] up to 5x4, 4x4 and 8x2 (thorough 6x4, 5x5); 8x4, 16x2, 32x4 and 64x2 with '
             'fixed scores and one or two free ones.', STAT)
def _():
    for a, b in ((2, 2), (3, 2), (2, 3), (3, 3), (4, 2), (4, 3), (3, 4), (4, 4), (5, 4), (8, 2)):
        yield J('h_anova', 0, (a, b, 0, 0, 0))
    yield J('h_anova', 0, (8, 4, 2, 1, 1))
    yield J('h_anova', 0, (16, 2, 2, 1, 1))
    yield J('h_anova', 0, (32, 4, 2, 1, 1))
    yield J('h_anova', 0, (64, 2, 1, 1, 1))
    yield J('h_anova', 0, (6, 4, 0, 0, 0), 't', 600)
    yield J('h_anova', 0, (5, 5, 0, 0, 0), 't', 600)
    yield J('h_anova', 0, (10, 3, 0, 0, 0), 't', 800)


@prop('C24', 'Score matrices of any reals in [-1000,1000] up to 5x4, 4x4 and 6x2 (thorough 6x4, 5x5 and 8x2).', STAT)
def _():
    for a, b in ((2, 2), (3, 2), (2, 3), (3, 3), (4, 2), (4, 3), (3, 4), (4, 4), (5, 4), (6, 2)):
        yield J('h_tukey', 0, (a, b, 0, 0, 0))
    yield J('h_tukey', 0, (8, 2, 0, 0, 0), 't', 600)
    yield J('h_tukey', 0, (6, 4, 0, 0, 0), 't', 600)
    yield J('h_tukey', 0, (5, 5, 0, 0, 0), 't', 600)


@prop('C25', 'Through serde_json: identifiers of any 1-2 bytes of UTF-8 (values), 1 byte (text), any judgement, any finite '
             'prediction score (values; as text those of n/100, n/1024 and -n/10^5 with n below 1000, 1000 and 100 one by one, and any 3 or 4 digits on reading), '
             'every field order, missing fields, judgements around powers of two as text.')
def _():
    yield J('h_json_value', 0, (2, 1))
    yield J('h_json_value', 1, (2, 1))
    yield J('h_json_text', 0, (1, 0, 99))
    yield J('h_json_text', 0, (0, 1, 9))
    yield J('h_json_text', 0, (0, 0, 9, 65530))
    yield J('h_json_text', 0, (0, 0, 9, 2147483643))
    yield J('h_json_text', 0, (0, 0, 9, 4294967286))
    yield J('h_json_digits', 0, (2, 2))
    yield J('h_json_digits', 1, (2, 2))
    yield J('h_json_digits', 3, (2, 1, 5))
    yield J('h_json_score', 0, (999, 2))
    yield J('h_json_score', 1, (99, 5))
    yield J('h_json_score', 2, (999, 0))
    yield J('h_json_score', 0, (9999, 3), 't', 800)
    yield J('h_json_inexact', 0, (), finding='json-double')
    yield J('h_json_order', 0, (1,))
    yield J('h_json_order', 1, (1,))
    yield J('h_json_missing', 0, ())
    yield J('h_json_store', 0, (2,))
    yield J('h_json_store', 1, (2,))
    yield J('h_json_store', 0, (3,))
    yield J('h_json_store', 1, (3,))
    yield J('h_json_text', 0, (1, 1, 999), 't', 800)
    yield J('h_json_text', 0, (2, 0, 99), 't', 800)


TOOL = [
    'The tools run in a modelled world: files are byte strings in memory, a write to one may fail once its capacity (a symbolic number) is used up, standard output is '
    'recorded, the arguments are given to the real clap. anyhow, polars (reading CSV, select, mean, left join, writing CSV) and prettytable are the contracts in '
    '/verif/cli/stubs, of the functions the tools use; serde_json, BufReader, BufWriter and the library are the real ones.',
    'The text of a symbolic double is a token that stands for its exact value; the printed digits of values the solver leaves open are not modelled '
    '(those of concrete doubles are).',
]


@prop('C26', 'elinor-convert: 1-2 (thorough 3) lines of any letter ids and any digit score, ids of 1-3 any printable characters, 300 fixed lines and a free one, '
             'a write (also done in part) or a read that fails after any number of bytes, an invalid byte, a missing score, CR LF and an unterminated last line, an earlier output file. elinor-evaluate: each of the 13 metrics at a fixed cutoff, up to 2 free judgements of 3 documents, '
             '1-3 and 121 queries (with quotes, separators and blanks in their ids), with and without the CSV output, the default metrics, reads and writes that fail '
             'after any number of bytes, repeated records, a query without judgements.', TOOL)
def _():
    for c in (0, 1):
        yield J('h_convert', c, (1, 0, 0))
        yield J('h_convert', c, (2, 0, 0))
        yield J('h_convert', c, (1, 300, 0))
        yield J('h_convert', c + 2, (1, 0, 0))
        yield J('h_convert', c + 2, (1, 300, 0))
        for n in (1, 2, 3):
            yield J('h_convert', c + 4, (1, 0, n))
        yield J('h_convert', c + 4, (2, 0, 1))
        for k in (8, 16, 32):
            yield J('h_convert', c + k, (1, 1, 0))
        yield J('h_convert', c, (1, 12, 0))
        yield J('h_convert', c + 64, (1, 13, 0))
        yield J('h_convert', c + 16, (1, 12, 0), 't', 600)
        yield J('h_convert', c, (3, 0, 0), 't', 800)
        yield J('h_convert', c + 2, (2, 1, 0), 't', 800)
    yield J('h_convert_infinite', 0, (), finding='infinite-score')
    for m in range(13):
        yield J('h_evaluate', m, (1 + m % 2, 0, 1, 1))
        yield J('h_evaluate', m, (0, 1, 1, 0))
        yield J('h_evaluate', m, (2 - m % 2, 0, 2, 2), 't', 800)
    for m in (0, 6, 12):
        yield J('h_evaluate', m, (1, 0, 1, 1, 1))
        yield J('h_evaluate', m, (1, 0, 0, 0, 2))
        yield J('h_evaluate', m, (1, 0, 1, 120))
    for fail in (3, 4, 5):
        yield J('h_evaluate', fail, (1, 0, 1, 1, fail))
    yield J('h_evaluate', 0, (1, 2, 1, 1))
    yield J('h_evaluate', 0, (2, 2, 1, 2), 't', 800)


@prop('C27', 'elinor-compare: 1-3 (thorough 4) systems, 2-3 (thorough 6) topics, up to 2 scores any real in [0,1] and the others fixed, every order of '
             'the rows of the second to last file, one or two shared metrics in either order with or without metrics of their own, topic ids that are '
             'like numbers or have separators in them, comma and tab, raw and pretty printing, one or two iterations of each randomised test with any draws.', TOOL + STAT)
def _():
    # systems, topics, free scores, pretty, iterations, tab, one shared metric
    for c in (0, 1, 2):
        yield J('h_compare', c, (1, 3, 2, 0, 1, 0))
        yield J('h_compare', c, (2, 2, 2, 0, 1, c % 2))
        yield J('h_compare', c, (3, 2, 2, 0, 1, c % 2, 1))
    yield J('h_compare', 6, (2, 3, 2, 1, 1, 1, 1))
    yield J('h_compare', 1, (2, 3, 0, 0, 1, 1, 1))
    yield J('h_compare', 0, (2, 3, 0, 0, 1, 0, 1))
    yield J('h_compare', 4, (3, 3, 1, 0, 1, 0, 1))
    yield J('h_compare', 5, (2, 3, 0, 0, 2, 0, 1, 1))
    yield J('h_compare', 5, (2, 3, 0, 0, 1, 0, 1, 2))
    yield J('h_compare', 2, (3, 3, 0, 1, 1, 0, 1))
    yield J('h_compare', 0, (2, 3, 2, 0, 1, 0, 1), 't', 800)
    yield J('h_compare', 2, (2, 3, 2, 0, 1, 1, 1), 't', 800)
    yield J('h_compare', 5, (3, 3, 2, 0, 1, 0, 1), 't', 800)
    yield J('h_compare', 4, (4, 2, 0, 0, 1, 0, 1), 't', 800)
    yield J('h_compare', 6, (2, 6, 0, 0, 1, 0, 1), 't', 800)
    yield J('h_compare', 0, (3, 2, 1, 0, 1, 0), 't', 800)


NOT_APPLICABLE = {}

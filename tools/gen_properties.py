#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator only so the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe, "hook_needed": None}})
R="src/relevance.rs"; M="src/metrics.rs"; L="src/lib.rs"; T="src/trec.rs"; S="src/statistical_tests"
p("C01","Relevance store neither loses nor invents records",
  "A store built from any sequence of records with distinct (query, document) pairs contains exactly those records: every lookup (by pair, per-query map, per-query ranking), the record listings and the query/document counts agree with the input, and pairs or queries never added are reported absent. Consuming and borrowing listings return the same records, and rebuilding a store from them yields the same store.",
  ["inputs","histories"],"every sequence of add_record calls over any keys and any scores, in any order",
  "The unit tests insert three or four fixed records; loss or duplication that depends on key order, repeated queries, equal scores or on the number of documents is never exercised.",
  [R],[("RelevanceStoreBuilder::add_record/build",R),("RelevanceStore accessors",R)],["RelevanceStore public accessors"])
p("C02","Rankings are by score descending, document id ascending",
  "For every query the ranking is the list of its documents in strictly descending score order with equal scores ordered by ascending document id, independently of the order in which records were added and of what other queries contain. This holds for the whole score domain: every u32 judgement and every f64 bit pattern (negative, infinite, both zeros, NaN treated as one greatest value).",
  ["inputs","histories"],"every set of records, every insertion order, every score bit pattern",
  "Tests use a handful of small positive distinct scores, so tie-breaking, signed zeros, NaN, infinities, neighbouring floats and long lists (where the sort algorithm changes) are never reached.",
  [R,L],[("sort_by(score desc, doc_id asc)",R),("OrderedFloat score type",L)],["RelevanceStore::get_sorted","records","into_records"])
p("C03","Duplicate (query, document) pairs are always rejected",
  "Adding a record whose (query, document) pair was already added fails with DuplicateEntry whatever the scores are, wherever in the history the first one was, and leaves what was added before unchanged; adding a record with a new pair always succeeds. Building from an iterator fails exactly when two of its records share a pair.",
  ["inputs","histories"],"every history of insertions, including ones that continue after a rejected insertion",
  "One unit test adds one duplicate immediately after the original; other positions, other queries holding the same document, and the state left behind by a rejected insertion are not tested.",
  [R,"src/errors.rs"],[("contains_key check in add_record",R),("? in from_records",R)],["RelevanceStoreBuilder::add_record","RelevanceStore::from_records"])
p("C04","Evaluation scores exactly the predicted queries",
  "Evaluation returns one score for each query of the predictions and no other, computed from that query's judgements and ranking only; it fails with MissingEntry exactly when some predicted query has no judgements. Judged queries without predictions never affect any result, and the returned metric is the requested one.",
  ["inputs"],"every pair of stores, every relation between their query sets, every metric",
  "Tests have identical query sets with one exception; cross-talk between queries, or a missing query in another position, is not sampled.",
  [M,L],[("compute_metric per-query loop and MissingEntry",M),("evaluate",L)],["evaluate(..).scores()","evaluate(..) error"])
p("C05","Aggregates are the mean and population variance of the scores",
  "For every evaluation over at least one query the reported mean is the arithmetic mean of the per-query scores, the variance is the population variance (divisor n), and the standard deviation is its square root; hence the variance is never negative, and it is zero (up to rounding) exactly when all scores agree.",
  ["inputs"],"every set of per-query score values and every number of queries",
  "One unit test with two fixed queries.",
  [L],[("mean and variance computed in evaluate",L)],["Evaluation::mean","Evaluation::variance","Evaluation::std_dev"])
p("C06","Set-based metrics follow their definitions for every cutoff",
  "Hits, success, precision, recall and F1 at cutoff k equal their definitions over the first k documents of the ranking (k = 0 meaning the whole ranking), where a document is relevant when its judgement is at least 1, unjudged documents are non-relevant, precision divides by k even when fewer documents were retrieved, recall divides by the number of relevant judged documents, and F1 is their harmonic mean (0 when there is none).",
  ["inputs"],"every judgement set, every ranking, every cutoff from 0 to usize::MAX, including queries without relevant documents",
  "Tests sample a fixed four-document query with cutoffs 0 to 5; judgements above 1, unjudged documents, empty relevance sets and huge cutoffs are mostly not sampled.",
  [M,"src/metrics/hits.rs","src/metrics/success.rs","src/metrics/precision.rs","src/metrics/recall.rs","src/metrics/f1.rs"],
  [("compute_hits / compute_success / compute_precision / compute_recall / compute_f1","src/metrics/")],["evaluate with Metric::{Hits,Success,Precision,Recall,F1}"])
p("C07","Rank-based binary metrics follow their definitions",
  "Average precision at k is the sum of precision at the rank of each relevant document among the first k divided by the number of relevant judged documents; reciprocal rank at k is the inverse rank of the first relevant document among the first k; R-precision is precision at R, the number of relevant judged documents. Each is 0 when there is no relevant document (k = 0 meaning the whole ranking).",
  ["inputs"],"every judgement set, every ranking and every cutoff",
  "Fixed four-document rankings only; position-dependent mistakes, e.g. at the cutoff boundary or with relevant documents that were not retrieved, need specific combinations.",
  [M,"src/metrics/average_precision.rs","src/metrics/reciprocal_rank.rs","src/metrics/r_precision.rs"],
  [("compute_average_precision / compute_reciprocal_rank / compute_r_precision","src/metrics/")],["evaluate with Metric::{AP,RR,RPrecision}"])
p("C08","Bpref follows its definition over judged documents only",
  "Bpref is 1/R times the sum over retrieved relevant documents of 1 - min(n, R)/min(N, R), where R and N count the relevant and non-relevant judged documents and n the judged non-relevant documents ranked above; a document with none above it contributes 1. Unjudged documents never change the result.",
  ["inputs"],"every judgement set and every ranking, including those with no non-relevant judged document",
  "The unit test and trec_eval data always have judged non-relevant documents and few combinations of R, N and n.",
  [M,"src/metrics/bpref.rs"],[("compute_bpref","src/metrics/bpref.rs")],["evaluate with Metric::Bpref"])
p("C09","DCG follows its definition for both gain functions",
  "DCG at k is the sum over the first k documents of gain divided by log2(rank + 1), with gain equal to the judgement (Jarvelin and Kekalainen) or 2^judgement - 1 (Burges) and 0 for unjudged documents; both are never negative for any u32 judgement.",
  ["inputs"],"every judgement value in u32, every ranking and cutoff",
  "Tests use judgements up to 2; large judgements, unjudged documents between judged ones and cutoffs at the list boundaries are not sampled.",
  [M,"src/metrics/ndcg.rs"],[("compute_dcg, weighted_score","src/metrics/ndcg.rs")],["evaluate with Metric::{DCG,DCGBurges}"])
p("C10","nDCG is DCG over the ideal DCG of all judged documents",
  "nDCG at k is DCG at k divided by the DCG at k of the ideal ranking, which orders all judged documents of the query (retrieved or not) by descending judgement; it is 1 when the ideal DCG is 0. A ranking that is itself ideal scores 1, and no ranking scores more than 1 when k is positive.",
  ["inputs"],"every judgement set, every ranking, every cutoff, both gain functions",
  "Four fixed documents; rankings that omit the best documents, ties between judgements and cutoffs between the two list lengths are not sampled systematically.",
  [M,"src/metrics/ndcg.rs"],[("compute_ndcg","src/metrics/ndcg.rs"),("ranking of the judgements",R)],["evaluate with Metric::{NDCG,NDCGBurges}"])
p("C11","Scores are well-defined numbers within their range",
  "For every query and cutoff every metric returns a number (never NaN); success, recall, F1, precision, R-precision, AP, RR and bpref lie in [0,1], hits is an integer between 0 and the number of documents considered, DCG is at least 0; and for queries without relevant documents every binary metric is 0. Evaluation never panics.",
  ["inputs"],"every judgement set (including all-relevant and none-relevant), ranking and cutoff",
  "No test covers a query whose judged documents are all relevant or all non-relevant.",
  [M,"src/metrics/"],[("zero-denominator guards in src/metrics/*.rs","src/metrics/")],["evaluate(..).scores()"])
p("C12","Scores depend only on the ranking and the judgements",
  "Metric values are unchanged by the order in which records were added, by any strictly increasing transformation of the prediction scores, by a change of judgements that keeps which documents are relevant (binary metrics), by the ranking below the cutoff (cutoff metrics), and by treating an unjudged document as judged 0 for every metric except bpref.",
  ["inputs","histories"],"every pair of related inputs",
  "Relational (two-run) property; every test looks at one run.",
  [M,R],[("ranking from RelevanceStoreBuilder::build",R),("metrics take only sorted ids and judgements",M)],["evaluate(..).scores()"])
p("C13","Metric names parse and print consistently",
  "A string parses as a metric exactly when it is one of the thirteen documented names, optionally followed by '@' and a decimal cutoff that fits usize; the cutoff (absent meaning 0) is the parsed value, every other string is rejected with InvalidFormat, and printing a metric and parsing the result gives the metric back for every cutoff.",
  ["inputs"],"every string and every (metric, cutoff) pair",
  "Tests list a few dozen well-formed names; near-miss strings, signs, spaces, leading zeros, overflow and non-ASCII digits are not enumerable by hand.",
  [M],[("regex and match in FromStr",M),("Display",M)],["str::parse::<Metric>","Metric::to_string"])
p("C14","TREC judgement lines parse faithfully or fail cleanly",
  "Each judgement line with at least four whitespace-separated columns whose fourth is an i32 yields one record (column 1, column 3, max(column 4, 0)); any line with fewer columns or another fourth column makes parsing fail with InvalidFormat, a repeated pair with DuplicateEntry, and nothing panics whatever the bytes.",
  ["inputs"],"every sequence of text lines",
  "Only documentation examples and one data file exercise the parser: all well-formed.",
  [T],[("parse_true_rels_in_trec",T)],["parse_true_rels_in_trec"])
p("C15","TREC run lines parse faithfully or fail cleanly",
  "Each run line with at least five whitespace-separated columns whose fifth is a floating-point number yields one record (column 1, column 3, that number), whatever the second, fourth and later columns are; fewer columns or another fifth column fails with InvalidFormat, a repeated pair with DuplicateEntry, and nothing panics whatever the bytes.",
  ["inputs"],"every sequence of text lines",
  "Only documentation examples and one data file exercise the parser: all well-formed.",
  [T],[("parse_pred_rels_in_trec",T)],["parse_pred_rels_in_trec"])
p("C16","Score maps are aligned by key when paired or tupled",
  "Converting score maps to pairs or tuples yields, for each key in ascending order, the tuple of the maps' values for that key in the order the maps were given; it fails with InvalidArgument exactly when the maps' key sets differ (or no map is given), never silently drops a key and never panics.",
  ["inputs"],"every family of maps and every relation between their key sets",
  "Tests sample identical key sets and one mismatch.",
  ["src/statistical_tests.rs"],[("tuples_from_maps / pairs_from_maps","src/statistical_tests.rs")],["pairs_from_maps","tuples_from_maps"])
p("C17","Paired t-test statistics match their definitions",
  "For paired samples the reported mean, unbiased variance (divisor n-1), effect size mean/sd and t statistic mean/sqrt(variance/n) are those of the differences, the p-value is the two-sided tail of Student's t with n-1 degrees of freedom at that statistic, and swapping the two systems negates mean, effect size and t and keeps variance and p.",
  ["inputs"],"every sample vector of two or more real pairs",
  "Tests check two fixed vectors to a few digits.",
  [S+"/student_t_test.rs"],[("compute_t_stat, StudentTTest::from_paired_samples",S+"/student_t_test.rs")],["StudentTTest accessors"])
p("C18","Statistical tests fail cleanly outside their domain",
  "Each test reports InvalidArgument for too few samples or for records whose length is not the number of systems; the paired tests (zero variance of the differences), two-way ANOVA and Tukey HSD (zero residual variance, fewer than two systems) report an error (InvalidArgument or Uncomputable) when their statistic does not exist. None of them panics on any finite input, and each succeeds on every other one.",
  ["inputs"],"every number of samples and systems and every finite value, degenerate ones included",
  "Tests cover the obvious argument errors; identical systems, exactly additive data or a single system are not tested.",
  [S+"/"],[("argument checks at the head of each constructor",S+"/")],["Result of each constructor"])
p("C19","Margins of error and confidence intervals are consistent",
  "For every significance level in (0,1] the margin of error is the upper alpha/2 quantile of the statistic's scaled t distribution (scale sqrt(variance/n), the test's degrees of freedom) and the confidence interval is mean minus and plus that margin; any other level (including NaN) is rejected with InvalidArgument.",
  ["inputs"],"every f64 significance level and every sample vector",
  "Tests check alpha = 0.05 and the rejections 0.0 and above 1.",
  [S+"/student_t_test.rs",S+"/two_way_anova_without_replication.rs"],[("margin_of_error / confidence_interval",S+"/")],["StudentTTest::margin_of_error","confidence_interval","TwoWayAnovaWithoutReplication::margin_of_error"])
p("C20","Bootstrap p-values count extreme centred resamples",
  "The bootstrap p-value is the fraction of resamples, drawn with replacement from the mean-centred differences, whose absolute t statistic reaches the observed one (a resample with zero variance counts as statistic 0); it lies in [0,1] as a multiple of 1/B for the effective B, which is at least 1, and is unchanged by swapping the systems or by adding a constant to both scores of a pair.",
  ["inputs","schedules"],"every sample vector and every random stream",
  "The seeded test checks one stream on one vector to a loose tolerance; a different stream or sample can hide an off-by-one, a missing centring or a one-sided count.",
  [S+"/bootstrap_test.rs"],[("BootstrapTester::test",S+"/bootstrap_test.rs")],["BootstrapTest::p_value","n_resamples"])
p("C21","Randomised Tukey HSD p-values are a max-range permutation test",
  "For every pair of systems the p-value is the fraction of iterations in which the range (largest minus smallest) of the system means, after independently permuting the scores within each topic, is at least the absolute difference of the two observed means; the matrix is symmetric with ones on the diagonal, entries are multiples of 1/B in [0,1] with effective B at least 1, and larger observed differences never have larger p-values.",
  ["inputs","schedules"],"every score matrix and every random stream",
  "One seeded stream with fixed data.",
  [S+"/randomized_tukey_hsd_test.rs"],[("RandomizedTukeyHsdTester::test",S+"/randomized_tukey_hsd_test.rs")],["RandomizedTukeyHsdTest::p_values"])
p("C22","Randomised tests are reproducible from the reported seed",
  "With a given random state, both randomised tests use that state for all randomness and report it, so two runs on the same input agree exactly; without one, a seed is drawn and reported, and running again with the reported seed reproduces the result. The configured number of resamples or iterations (at least one) is the number reported and used.",
  ["inputs","schedules"],"every seed, every sample vector and every entropy source output",
  "Tests run one seed once and never re-run from a reported seed.",
  [S+"/bootstrap_test.rs",S+"/randomized_tukey_hsd_test.rs"],[("random_state handling, StdRng::seed_from_u64",S+"/")],["random_state","p_value","p_values","n_resamples","n_iters"])
p("C23","Two-way ANOVA decomposes the total variation",
  "For every score matrix the system and topic means, the between-system, between-topic and residual variations and variances, the two F statistics and their p-values equal their textbook definitions with the right degrees of freedom; the three variations are non-negative and add up to the total variation, and the result does not depend on the order of topics beyond reordering the topic means.",
  ["inputs"],"every matrix of two or more systems and topics with non-zero residual",
  "Two fixed textbook matrices, checked to a few digits.",
  [S+"/two_way_anova_without_replication.rs"],[("from_tupled_samples",S+"/two_way_anova_without_replication.rs")],["TwoWayAnovaWithoutReplication accessors"])
p("C24","Tukey HSD effect sizes are standardised mean differences",
  "For every pair of systems the effect size is the difference of the two system means divided by the residual standard deviation of the two-way ANOVA; the matrix is antisymmetric with a zero diagonal, and permuting the systems permutes it accordingly.",
  ["inputs"],"every matrix of two or more systems and topics with non-zero residual",
  "One fixed matrix.",
  [S+"/tukey_hsd_test.rs"],[("effect_sizes",S+"/tukey_hsd_test.rs")],["TukeyHsdTest::effect_sizes"])
p("C25","Records survive JSON serialisation",
  "Serialising any record to JSON and reading it back yields the same record for every string identifier and every judgement, and for every finite prediction score; the fields are named query_id, doc_id and score, in any order on input.",
  ["inputs"],"every record",
  "Only ASCII identifiers and short decimal scores occur in the test data.",
  [R,"elinor-cli/src/bin/convert.rs"],[("serde derive on Record",R)],["serde_json::to_string / from_str of Record"])
p("C26","CLI conversion and evaluation preserve the library's results",
  "The convert tool writes exactly the records of its TREC input, and the evaluate tool prints the numbers of queries, documents and relevant documents, and prints (mean, to four decimals) and stores (every query), for every requested metric, the library's scores for the stores read from its JSONL inputs. An output that cannot be written in full is reported by a failure.",
  ["inputs","configurations"],"every input file pair and every option combination",
  "The CLI is run on two fixed data sets and compared to three digits.",
  ["elinor-cli/src/bin/convert.rs","elinor-cli/src/bin/evaluate.rs","elinor-cli/src/lib.rs"],[("main of each binary","elinor-cli/src/bin/")],["output JSONL and CSV files"])
p("C27","CLI comparison pairs systems by topic and reports the library's tests",
  "For inputs over the same queries the compare tool pairs the systems' scores by query id, whatever the order of the rows, over the metrics common to all inputs, and reports for each metric the statistics the library computes on exactly those pairs.",
  ["inputs","configurations"],"every family of CSV score files",
  "Three fixed CSV files, exit code only.",
  ["elinor-cli/src/bin/compare.rs"],[("joins and table builders","elinor-cli/src/bin/compare.rs")],["printed tables"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")

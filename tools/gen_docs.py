#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = 'src/os_urlpattern/'


def P(pid, title, statement, over, qtext, why, files, mech, note, na=None):
    return dict(id=pid, title=title, statement=statement, over=over, qtext=qtext, why=why,
                files=[R + f for f in files], mech=[{'name': a, 'where': R + b} for a, b in mech], note=note, na=na)


PROPS = [
    P('C01', 'Exactly the supported characters are accepted',
      'Every printable ASCII character except blank and backtick may appear in a path level, query or fragment and belongs to exactly one '
      'character space: lower case letters, upper case letters, digits, or a space of its own per sign. Every other character, at any '
      'position of any component, is rejected with the invalid-character error and with no other effect.',
      ['inputs'], 'every Unicode character, in every position of a piece and of every URL component',
      'Tests use a handful of characters; the claim is about all 1.1 million code points and all positions.',
      ['definition.py', 'parse_utils.py', 'parser.py'],
      [('character class table', 'definition.py'), ('piece parser', 'parse_utils.py:PieceParser')],
      'Every code point is in one abstract class of the analysis; sizes are symbolic where the first phase closes.'),
    P('C02', 'A path level is cut into maximal runs of one character space',
      'Parsing a path level, query value or fragment yields its maximal runs of characters of one space, in order, each letter or digit '
      'run as its own text and each sign run as its bracketed space with its repetition count, together with the space name of every run. '
      'Nothing is lost, added, merged or carried over from text parsed before.',
      ['inputs', 'histories'], 'all texts over the supported alphabet; any earlier use of the same parser',
      'Unbounded texts and run lengths; tests check a few literal strings.',
      ['parse_utils.py', 'parser.py'],
      [('run splitting and counting', 'parse_utils.py:PieceParser.parse'), ('unit text', 'parse_utils.py:specify_rule')],
      'One, two and three adjacent runs of every class pairing, run lengths symbolic (fixpoint at loop heads) or partitioned.'),
    P('C03', 'Query strings split into the right keys and values',
      'A query is split at every ampersand, each item at its first equals sign, into keys (with the equals sign when present) and values, '
      'preserving order, count, empty values and duplicates; an absent query differs from a present empty one. A misplaced ampersand '
      '(leading, trailing, doubled) is rejected as an irregular URL, and signs inside keys appear as their bracketed spaces.',
      ['inputs'], 'all queries: any number of items, keys and values of any text, with or without equals sign',
      'The test covers a few literal queries.',
      ['parse_utils.py', 'parser.py'],
      [('query splitting', 'parse_utils.py:parse_query_string'), ('key normalisation', 'parse_utils.py:normalize')],
      'Items of abstract text, up to three items.'),
    P('C04', 'URLs decompose into levels, query items and fragment without loss',
      'Every URL decomposes into its path levels (at least one, a trailing slash giving an empty last level, other empty levels dropped), its '
      'query items and its fragment, in order, independent of scheme and host. Two URLs have the same structure exactly when they have the '
      'same number of levels, the same query keys in the same order and agree on having a fragment.',
      ['inputs'], 'all absolute URLs',
      'The structure space is unbounded; tests pin a few URLs.',
      ['parse_utils.py', 'parser.py'],
      [('URL splitting', 'parse_utils.py:parse_url'), ('structure record', 'parse_utils.py:URLMeta'),
       ('empty levels', 'parse_utils.py:filter_useless')],
      'Abstract text per component; shapes of up to four levels and three items.'),
    P('C05', 'A URL pattern is taken apart exactly as it was put together',
      'Putting level patterns together to a URL pattern and taking the pattern apart again returns the same levels, query keys, values and '
      'fragment, even when signs that also act as separators occur inside units. The literal pattern of any supported URL has the same '
      'structure and pieces as the URL itself.',
      ['inputs'], 'all URL patterns over all structures, and all supported URLs',
      'Tests have a few literal patterns; separators inside units need particular combinations.',
      ['parse_utils.py', 'parser.py'],
      [('pattern splitting', 'parse_utils.py:parse_url_pattern_string'), ('assembly', 'parse_utils.py:pack')],
      'Abstract text per component, separators planted inside units.'),
    P('C06', 'Pattern units are read back exactly as they are written',
      'A level pattern made of literal runs, fixed-count units, wildcard units and single units is read back as exactly these units, with '
      'their sets of character spaces and counts, whatever signs the units contain. Text that is not a pattern is rejected with the '
      'invalid-pattern error.',
      ['inputs'], 'all sequences of units over all character spaces and counts, and malformed texts',
      'Bracket, backslash and brace signs inside brackets make the grammar delicate; tests sample it.',
      ['parse_utils.py', 'parsed_piece_view.py'],
      [('unit grammar', 'parse_utils.py:parse_pattern_string'), ('unit writer', 'parse_utils.py:specify_rule')],
      'One to three units over all spaces; counts symbolic.'),
    P('C07', 'The length of a parsed piece is the length of the original text',
      'The length the system attributes to a path level, query value or fragment equals the number of characters of the original text, '
      'although signs are rewritten to bracketed units with repetition counts.',
      ['inputs'], 'all texts over the supported alphabet, all run lengths',
      'Lengths decide fixed-count patterns; tests check a few texts, and none with long sign runs of every sign.',
      ['parsed_piece_view.py', 'parse_utils.py'],
      [('piece length', 'parse_utils.py:ParsedPiece')],
      'Up to three runs of symbolic length.'),
    P('C08', 'Digests group URLs exactly by structure and character spaces',
      'Two URLs have the same digest exactly when they have the same structure and, level by level, the same set of character spaces. A '
      'pattern has the digest of every URL it was generalised from.',
      ['inputs'], 'all pairs of URLs and all patterns generalised from a URL',
      'It is a statement about pairs; tests compare a few digests.',
      ['utils.py', 'parser.py', 'parse_utils.py', 'parsed_piece_view.py'],
      [('digest', 'parse_utils.py:digest'), ('entry point', 'parser.py:fuzzy_digest')],
      'Pairs over the listed level shapes; md5 is assumed collision free.'),
    P('C09', 'Loading accounts for every URL and record exactly once',
      'Loading a URL tells truthfully whether an equal URL (same path, query and fragment) was loaded before; equal URLs share one entry and '
      'are counted once. Every distinct record attached to a URL is kept exactly once, also when URLs are loaded repeatedly or records are '
      'shared between URLs.',
      ['inputs', 'histories'], 'all sequences of loads with and without records',
      'Depends on the whole load history and on which texts coincide.',
      ['pattern_maker.py', 'piece_pattern_node.py', 'utils.py'],
      [('tree of pieces', 'piece_pattern_node.py:build_from_parsed_pieces'), ('records of a node', 'piece_pattern_node.py:PiecePatternNode.add_meta')],
      'Histories of up to four loads; the partition of equal/different characters is explored completely.'),
    P('C10', 'Clusters partition the loaded URLs',
      'Clustering puts every loaded URL and every record into exactly one cluster: none is lost, none appears twice, and the cluster sizes '
      'add up to the number of distinct URLs. Different clusters have different patterns, and the combined tree holds the same '
      'clusters with the same sizes.',
      ['inputs', 'configurations'], 'all multisets of URLs and all thresholds of two or more',
      'Each clustering strategy moves URLs between trees; tests look at a few corpora.',
      ['pattern_cluster.py', 'pattern_maker.py', 'piece_pattern_node.py'],
      [('clustering', 'pattern_cluster.py:cluster'), ('splitting and merging of trees', 'pattern_cluster.py'),
       ('combined tree', 'pattern_maker.py:PatternMaker.make')],
      'Corpora of 3 to 6 URLs with abstract characters, threshold symbolic (every value of two or more).'),
    P('C11', 'A cluster pattern covers its members and matches them back',
      'Read as a regular expression over the components, the pattern of every cluster covers every URL of the cluster. A matcher loaded with '
      'the patterns of all clusters reports, for every clustered URL, the pattern of the cluster it was put into.',
      ['inputs', 'configurations'], 'all multisets of URLs and all thresholds of two or more',
      'Needs every clustering strategy against every kind of matcher; tests only check one corpus.',
      ['pattern_cluster.py', 'pattern_matcher.py', 'parsed_piece_view.py'],
      [('pattern text of a cluster', 'pattern_cluster.py'), ('matching views', 'parsed_piece_view.py'),
       ('matchers per view', 'pattern_matcher.py')],
      'Same corpora as C10; the specification matcher is an independent regular-expression reading of the pattern.'),
    P('C12', 'A URL matches exactly the patterns it fits',
      'A URL matches a loaded pattern exactly when they have the same structure and, level by level, the same character spaces and every '
      'unit fits the corresponding part of the URL (text, count or wildcard). Every loaded pattern that fits is reported once, whatever else was loaded '
      'or matched before, and no other is reported.',
      ['inputs', 'histories'], 'all patterns of the forms clustering produces, all URLs, all sets of loaded patterns and load orders',
      'Quantifies over pairs of patterns and URLs and over what else is loaded.',
      ['pattern_matcher.py', 'parsed_piece_view.py', 'parse_utils.py'],
      [('match tree', 'pattern_matcher.py:PatternMatcher.match'), ('view matchers', 'pattern_matcher.py'),
       ('view selection', 'parsed_piece_view.py:view_cls_from_pattern')],
      'Single patterns of every form against URLs of same and different shapes; sets of up to four patterns.'),
    P('C13', 'More specific patterns rank first',
      'When a URL matches several patterns, sorting the answers puts more specific ones first: at the last level where they differ, literal '
      'before part-wise, before whole-level fixed length, before wildcard. The order does not depend on the order of loading.',
      ['inputs', 'histories'], 'all sets of patterns matching a common URL, all load orders',
      'Quantifies over load orders and over pairs of patterns.',
      ['pattern_matcher.py', 'parsed_piece_view.py'],
      [('comparison of match results', 'pattern_matcher.py:PatternMatchNode'), ('view order', 'parsed_piece_view.py')],
      'Eight families of up to nine patterns, permutations of the load order.'),
    P('C14', 'Equality, hashing and ordering agree with the text',
      'Patterns and parsed pieces are equal exactly when their texts are equal, equal ones hash alike, unequal stays the negation of equal, '
      'and comparison with other objects does not fail.',
      ['inputs'], 'all pairs of pattern or piece texts',
      'Sets and dictionaries silently rely on it for all pairs.',
      ['pattern.py', 'parse_utils.py', 'pattern_matcher.py'],
      [('pattern equality', 'pattern.py:Pattern'), ('piece equality', 'parse_utils.py:ParsedPiece')],
      'Pairs of abstract texts, including equal texts built independently.'),
    P('C15', 'pattern-match answers every input line once, in order',
      'The match command prints exactly one line per input line, in order: the best pattern (all matching ones on request), or N when '
      'nothing matches, or E when the line cannot be parsed, then a tab and the stripped line. One bad pattern or URL never affects the answers for other lines or ends the run.',
      ['inputs', 'fault_sequences'], 'all pattern files and input streams, every outcome of loading and matching',
      'Tests drive the command with a single good input.',
      ['cmdline.py'],
      [('match command', 'cmdline.py:MatchPatternCommand')],
      'The matching result of each line is havocked (any answer, any documented error); three input lines; plus end-to-end lines.'),
    P('C16', 'pattern-make reports every good line and survives bad ones',
      'The make command clusters exactly the lines that are supported URLs and prints the clusters in the requested format. A line that '
      'cannot be parsed is skipped without influence on the result for the other lines.',
      ['inputs', 'fault_sequences'], 'all input streams, bad lines at every position, all formats',
      'Tests drive the command with good lines only.',
      ['cmdline.py', 'formatter.py', 'pattern_maker.py'],
      [('make command', 'cmdline.py:MakePatternCommand')],
      'Streams of a few lines with a failing line at every position, every output format.'),
    P('C17', 'Results depend on what was loaded, not on earlier calls',
      'Clustering or matching again, loading more in between, or using other instances with other settings in the same process never changes '
      'a result: it is always that of a fresh instance that loaded the same input.',
      ['histories', 'configurations'], 'all interleavings of load, cluster and match calls over several instances',
      'Tests make one call per instance.',
      ['pattern_maker.py', 'pattern_cluster.py', 'pattern_matcher.py', 'parser.py'],
      [('per-instance state', 'pattern_maker.py:PatternMaker'), ('match tree', 'pattern_matcher.py:PatternMatcher')],
      'Two instances, two clusterings, loads before, between and after; threshold symbolic.'),
    P('C18', 'Malformed input fails with a documented error and leaves no trace',
      'Loading or matching a malformed URL or pattern fails with one of the documented errors (or a value error), never another one. '
      'Afterwards the instance behaves as if the call had not happened.',
      ['inputs', 'histories', 'fault_sequences'], 'all malformed inputs at every point of a history',
      'Tests only check two rejected URLs, in isolation.',
      ['pattern_maker.py', 'pattern_matcher.py', 'parser.py', 'parse_utils.py', 'exceptions.py'],
      [('parsing before insertion', 'pattern_maker.py:PatternMaker.load'), ('pattern loading', 'pattern_matcher.py:PatternMatcher.load')],
      'Nine kinds of bad URLs and twelve kinds of bad patterns with abstract text, at every position of short histories.'),
    P('C19', 'All output formats describe the same clusters',
      'For each cluster the pattern, inline, cluster and JSON formats show the same pattern, the same records (each exactly once) and the '
      'true number of distinct URLs; format names are case-insensitive; formatting has no effect on later output.',
      ['inputs'], 'all clusters, with and without records',
      'Tests do not compare the formats with each other.',
      ['formatter.py', 'parse_utils.py'],
      [('formatters', 'formatter.py')],
      'Corpora with and without records, small and large threshold.'),
    P('C20', 'The cluster threshold is honoured exactly',
      'Values of one varying part are generalised exactly when at least as many different values as the configured threshold occur (default '
      'three): fewer stay literal; as many become a fixed count if all have one length, and a wildcard if at least as many different lengths as '
      'the threshold occur. Values of fewer lengths become a wildcard too, unless one length dominates (see the documentation of confused); then '
      'every length counts on its own. Parts that vary together are generalised each on its own, and the constant rest stays literal.',
      ['inputs', 'configurations'], 'all numbers of values, all thresholds of two or more, the varying part at any place',
      'Off-by-one thresholds need boundary values for every clustering strategy.',
      ['pattern_cluster.py', 'config/__init__.py', 'config/default_config.cfg', 'cmdline.py'],
      [('threshold', 'pattern_cluster.py:ClusterProcessor'), ('default configuration', 'config/default_config.cfg')],
      'Threshold symbolic; one to seven values of one to four lengths; the varying part at each place of several structures, or two parts.'),
    P('C21', 'Clusters do not depend on load order or repetition',
      'Loading the same URLs in another order, or some of them several times, gives the same clusters with the same patterns, members and '
      'sizes.',
      ['inputs', 'histories'], 'all permutations and repetitions of all multisets of URLs',
      'Quantifies over orders; a test fixes one.',
      ['pattern_maker.py', 'pattern_cluster.py', 'utils.py'],
      [('bags and groups', 'utils.py'), ('clustering', 'pattern_cluster.py')],
      'Reversed, rotated and duplicated load orders of all corpora of C10, threshold symbolic.'),
    P('C24', 'Trees and bags account for every path and object once',
      'Adding sequences of keys to a tree shares equal beginnings: every node counts exactly what was added through it, knows its level, keeps the value it was '
      'created with and the last record bound to it, and adding tells truthfully whether its end was new. Dumping a tree yields every path from the root to a leaf '
      'exactly once, with all its nodes in order. A bag, also one of bags, has and yields every distinct object once, and picking from it gives an innermost one.',
      ['inputs', 'histories'], 'all sequences of additions, with any equalities among the keys',
      'Every other part relies on it for trees of any shape; the tests build one tree.',
      ['utils.py', 'piece_pattern_node.py'],
      [('building trees', 'utils.py:build_tree'), ('dumping trees', 'utils.py:dump_tree'), ('nodes', 'utils.py:TreeNode'), ('bags', 'utils.py:Bag')],
      'Up to four paths of up to three keys, all equalities among the keys; bags of three objects, nested up to three deep.'),
    P('C25', 'Views of a level keep its text and tell apart exactly what differs',
      'The parts of a view of a path level, joined, are the level: its runs (piece, length and multi view), its runs with adjacent letter, digit and percent runs '
      'merged (mixed view), name, dot and extension (last-dot view, for an extension of at most two letter or digit runs after the last dot), or the whole level '
      '(fuzzy view), each part with its own text, length and set of character spaces. Two levels have equal views exactly when they have the same text (piece view), length (length '
      'view) or sets of character spaces part by part (other views). Looking at a view changes neither the view nor the level.',
      ['inputs'], 'all levels and pairs of levels, all six views',
      'Clustering and matching group levels by views; tests only check which view a pattern selects.',
      ['parsed_piece_view.py', 'parse_utils.py'],
      [('views', 'parsed_piece_view.py:ParsedPieceView'), ('merging of runs', 'parse_utils.py:mix')],
      'Levels of up to six runs, all run texts; pairs of levels.'),
    P('C26', 'A level pattern is a regular expression for exactly the texts it stands for',
      'Pattern.match accepts a text (without line ends) exactly when the whole text consists of what the units of the pattern stand for, in order: literal text, the given number of '
      'characters of the spaces of the unit, or one or more of them for a wildcard. Case matters, the whole text counts, and earlier use of this or other patterns does not.',
      ['inputs', 'histories'], 'all patterns of the documented units and all texts over all of Unicode without line ends',
      'The test matches a few literal pairs.',
      ['pattern.py'],
      [('matching by regular expression', 'pattern.py:Pattern.match')],
      'One to three units, texts of up to four arbitrary characters.'),
    P('C27', 'Command line options mean what the help says',
      'Both commands read the given input files in the given order, or the standard input without -i. pattern-make prints in the requested format (names in any case, CLUSTER by default) '
      'with the thresholds of the -c file; pattern-match uses all given pattern files and prints all matches with -a. The log level (in any case) never changes the output, and '
      'messages never go to it. A wrong command line ends the program with a usage error and no output.',
      ['inputs', 'configurations'], 'all combinations and orders of options',
      'Tests use one or two option combinations per command.',
      ['cmdline.py', 'compat.py', 'config/__init__.py'],
      [('options', 'cmdline.py:Command.add_argument'), ('entry points', 'cmdline.py:_execute')],
      'About 60 option combinations of pattern-make and 290 of pattern-match with abstract URLs; argparse is modelled.'),
    P('C28', 'The low-level interface gives the same results as the high-level one',
      'Parsing URLs and patterns, grouping them by fuzzy digest and giving each group to its own Maker or Matcher gives exactly the clusters, patterns, records and matches '
      'of PatternMaker and PatternMatcher. The digest of a URL or pattern is that of its parsed parts, and makers and matchers report the structure they were made for.',
      ['inputs', 'configurations'], 'all corpora and thresholds of two or more',
      'No test uses the low-level interface; distributed use depends on it.',
      ['parser.py', 'pattern_maker.py', 'pattern_matcher.py', 'parse_utils.py'],
      [('low-level clustering', 'pattern_maker.py:Maker'), ('low-level matching', 'pattern_matcher.py:Matcher'), ('digest', 'parser.py:fuzzy_digest')],
      'Corpora of three or four URLs with abstract characters, threshold symbolic and default.'),
    P('C29', 'Hash-like values count as one part, extensions stay apart',
      'When a part made of several letter and digit runs varies, it is generalised run by run if it has few runs, and as one part with the union of their character '
      'spaces if it has many: a level or value of nothing else from four runs on, one beside signs as soon as this saves as many runs as the threshold. File names of one such '
      'part at the last path level are clustered by extension: as many names as the threshold for each of several extensions give one pattern per extension, with '
      'the extension literal.',
      ['inputs', 'configurations'], 'all values, numbers of runs, extensions and thresholds of two or more',
      'Needs the boundary between few and many runs for every threshold and place.',
      ['pattern_cluster.py', 'parsed_piece_view.py'],
      [('choice of the view', 'pattern_cluster.py:PiecePatternCluster'), ('merging of runs', 'parsed_piece_view.py:MixedView'),
       ('extensions', 'pattern_cluster.py:LastDotSplitFuzzyPatternCluster')],
      'Thresholds two to four, two to six runs, one to three extensions, at each place of several structures; characters abstract.'),
    P('C30', 'Values shared by several URLs are generalised unless one dominates',
      'When some parts of the URLs take few values that several URLs share (sections) and another part differs (items), the shared values are generalised together '
      'with the items if they are as many as the threshold, or if there are as many URLs as the threshold and no value dominates: the most frequent value and the rest both '
      'cover as many URLs as the threshold, or their numbers differ by less than the threshold minus one. Otherwise every value counts on its own: it stays literal, and '
      'its items are generalised if they are as many as the threshold. It does not matter whether sections precede items.',
      ['inputs', 'configurations'], 'all numbers of sections and items, all thresholds of two or more, both orders, within and across levels',
      'Needs every balance of sections against every threshold.',
      ['pattern_cluster.py', 'piece_pattern_node.py'],
      [('dominance', 'pattern_cluster.py:confused'), ('clusters of a level', 'pattern_cluster.py:ClusterProcessor'), ('splitting', 'pattern_cluster.py:cluster')],
      'One to four sections of one to six items, threshold symbolic; characters of the items abstract.'),
    P('C22', 'Clustering and matching finish quickly on any input',
      'Loading, clustering and matching finish for every input, in time roughly proportional to the size of the input, and with bounded '
      'stack depth.',
      ['inputs'], 'all corpora of any size',
      'Growth rates need unboundedly large inputs.',
      ['pattern_cluster.py', 'pattern_maker.py', 'pattern_matcher.py'],
      [('recursive clustering', 'pattern_cluster.py')], '',
      na='Running time and stack depth are runtime quantities: the recursion depth of clustering is the number of path levels and the work per '
         'level depends on the numbers of distinct values, for which no static bound in reach is both sound and tight. (About 1000 path '
         'levels exhaust the Python stack today; DESIGN.md, limitations.)'),
    P('C23', 'Clusters agree with what a human would group',
      'On corpora of real web sites, URLs of the same page type end up in the same cluster and URLs of different page types in different '
      'ones, and the best pattern of an unseen URL is that of its page type.',
      ['inputs'], 'real web sites',
      'Quality is statistical and has no exact oracle.',
      ['pattern_cluster.py'],
      [('clustering heuristics', 'pattern_cluster.py')], '',
      na='A statistical quality of the heuristics with no exact specification: there is nothing in the source against which a static argument '
         'could decide it. Its exact parts are C10, C11, C20, C21, C29 and C30.'),
]

TECH = 'abstract interpretation of the syntax trees (path-sensitive, custom domains)'
NOTE = ('Interprocedural abstract interpretation of the current source; no repository code is run and no solver is used. Text is abstracted to '
        'runs over character sets, sizes to affine integer expressions, joins only at loop heads. An alarm needs a false obligation on a path '
        'without joins. Scope: %s Assumes the models of Python builtins in sa/models.py; anything outside them leaves an obligation open '
        '(reported in the evidence), never an alarm.')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': p['mech'], 'hook_needed': None}}) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 -c "import ast"',
         'checks': [], 'not_applicable': [],
         'notes': 'All checks read /repo/src on every run; nothing is built or executed. See DESIGN.md.'}
    for p in PROPS:
        if p['na']:
            m['not_applicable'].append({'property': p['id'], 'reason': p['na']})
            continue
        cmd = 'python3 /verif/run.py --property %s --tier ' % p['id']
        m['checks'].append({'property': p['id'], 'quick_cmd': cmd + 'quick', 'thorough_cmd': cmd + 'thorough',
                            'technique': TECH, 'level': 'other', 'level_note': NOTE % p['note']})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()

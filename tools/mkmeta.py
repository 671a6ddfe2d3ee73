"""Writes properties.jsonl and MANIFEST.json from the definitions below."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

API, GEN, CLI, CMK = ('md_toc/api.py', 'md_toc/generic.py', 'md_toc/cli.py',
                      'md_toc/cmark/inlines_c.py')
CON = 'md_toc/constants.py'
MAIN = 'md_toc/__main__.py'

# id: title, statement, over, quantifier, why tests cannot, files, mechanism
# [(name, where)], observe_at, technique, note
P = {
 'C01': (
  'Exactly the ATX headings within the kept levels are listed, in order',
  'For every document, dialect and number of levels to keep, the table of contents has exactly one entry for each ATX heading of the document that lies outside fenced code blocks and whose level is within the kept levels, in document order. What is an ATX heading (indentation, one to six number signs, the blank that follows, closing sequences) is decided by the specification of the dialect (GFM 0.29, CommonMark 0.30, redcarpet). No other line ever gives an entry.',
  ['inputs', 'configurations'],
  'all documents, whatever the lines around the headings, all dialects, levels to keep, list options and line endings',
  'The tests judge single lines from the specification, and a few documents of a handful of lines; they do not reach arbitrary combinations of prefixes, suffixes, neighbours, document sizes and dialects.',
  [API, CON], [('get_atx_heading: scan of prefix, text and closing sequence', API), ('get_md_header: visibility by level', API), ('build_toc: reading loop', API)],
  ['build_toc result', 'command line output']),
 'C02': (
  'Fenced code blocks hide their content, and nothing but their content',
  'For every sequence of lines, a line is taken as part of a fenced code block exactly when the fence rules of the dialect say so: the opening fence (character, length, indentation, info string), the closing fence (same character, at least as long, at most three spaces of indentation, nothing but blanks after it) and the end of the document for an unclosed block. Headings inside a block are never listed and never counted, and headings before and after it always are. The redcarpet dialect knows no fences.',
  ['inputs', 'histories'],
  'all sequences of fence-like and ordinary lines, blocks of every length, closed and unclosed, last lines with and without terminator, files and standard input',
  'The state carried from line to line depends on the whole history of the document; the tests sample isolated fence lines and the few examples of the specification.',
  [API, CON], [('is_opening_code_fence, is_closing_code_fence', API), ('build_toc: is_within_code_fence and end of document detection', API)],
  ['build_toc result', 'is_opening_code_fence and is_closing_code_fence results']),
 'C03': (
  'The text of an entry is the text of its heading, brackets escaped',
  'For every heading, the text of its entry is the content of the heading without number signs, surrounding blanks and closing sequence, and otherwise character by character the same. In links of the CommonMark-like dialects each square bracket that is not already escaped gets one backslash and a trailing backslash gets a following space so that the link stays closed; without links, and in redcarpet, the text is not escaped.',
  ['inputs', 'configurations'],
  'all heading contents over the whole of Unicode, combinations of brackets, backslashes, number signs and blanks at both ends, all dialects, with and without links',
  'The tests compare a few dozen headings; escapes, closing sequences and blanks interact and need every short combination and long ones as well.',
  [API], [('get_atx_heading: trimming, closing sequence, bracket escaping', API), ('build_toc_line_without_indentation', API)],
  ['build_toc result', 'get_atx_heading result', 'get_md_header result']),
 'C04': (
  'Anchors derive from the heading text by the documented rule of the dialect',
  'For every heading text without inline markup, the anchor in the CommonMark-like dialects is the lower case text in which only letters, digits and the other word characters, hyphens and spaces are kept and each space is turned into a hyphen; the gitlab dialect reduces runs of hyphens to one. The rule is the same for every character of Unicode, at every position and for every length.',
  ['inputs'],
  'all heading texts: every code point, neighbours, positions, runs of spaces and hyphens, lengths',
  'The tests check a few ASCII and a few non-ASCII samples, the rule quantifies over all code points and their combinations.',
  [API], [('anchor_link_punctuation_filter', API), ('build_anchor_link: lower case, spaces, hyphens', API)],
  ['build_anchor_link result', 'anchors of build_toc']),
 'C05': (
  'Emphasis delimiters and inline HTML leave no trace in anchors',
  'For every heading of the CommonMark-like dialects, exactly the asterisks and underscores which the CommonMark emphasis rules consume as delimiters are absent from the anchor computation, while those which are literal (flanking rules, escapes, code spans, unmatched, inside words) stay subject to the ordinary rule. Inline HTML tags, comments, declarations and processing instructions vanish as a whole, whereas text that merely resembles them stays.',
  ['inputs'],
  'all inline texts built of delimiters, blanks, punctuation, letters, escapes, code spans and HTML constructs',
  'The tests are the emphasis examples of the specification; the delimiter algorithm is history dependent and is only pinned down by all combinations.',
  [API, CMK, 'md_toc/constants.py'], [('remove_emphasis', API), ('delimiter stack: scan_delims, process_emphasis, code spans', CMK), ('remove_html_tags', API)],
  ['remove_emphasis result', 'remove_html_tags result', 'anchors of build_toc']),
 'C06': (
  'Repeated anchors are numbered in document order, listed or not',
  'In the CommonMark-like dialects the first heading with a given anchor has the plain anchor and each following one has the suffix -1, -2, and so on, in document order. Headings deeper than the kept levels count, headings in code blocks and skipped lines do not, and the count starts anew with each document.',
  ['inputs', 'histories'],
  'all sequences of headings with equal, nearly equal and different anchors, hidden and shown, any number of repetitions',
  'The counter is a state over the history of the document; the tests see two or three repetitions.',
  [API], [('build_anchor_link: header_duplicate_counter', API), ('get_md_header: anchors of hidden headings', API)],
  ['anchors of build_toc', 'build_anchor_link with a shared counter']),
 'C07': (
  'The redcarpet dialect follows redcarpet',
  'For every line, the redcarpet dialect finds the headings redcarpet finds (no indentation, blank after the number signs, trailing number signs and spaces removed, levels up to six) and computes the anchor redcarpet computes: tags and entities skipped, other stripped characters joined into single hyphens, and a checksum of the bytes when nothing is left. Repeated anchors are not numbered, and each level is indented by four spaces.',
  ['inputs'],
  'all heading lines and texts, over ASCII exhaustively for short lengths and over the whole of Unicode',
  'The tests have a few lines for redcarpet; the anchor is a state machine over all characters with an overflow-prone checksum.',
  [API, CON], [('get_atx_heading: redcarpet branch', API), ('build_anchor_link: redcarpet branch', API), ('compute_toc_line_indentation_spaces: redcarpet branch', API)],
  ['build_anchor_link result', 'build_toc result']),
 'C08': (
  'Incoherent heading sequences are refused, coherent ones never',
  'Unless coherence checking or indentation is switched off, a document is refused with the dedicated error exactly when some listed heading is more than one level deeper than the listed heading before it or is less deep than the first listed heading. Headings which are hidden by the kept levels or lie in code blocks have no influence, and with the check off no sequence is refused.',
  ['inputs', 'histories', 'configurations'],
  'all sequences of heading levels of any length, all numbers of kept levels, all dialects',
  'The verdict depends on the whole sequence of levels; tests have a handful of sequences.',
  [API], [('build_toc: header_type_first, header_type_prev checks', API)],
  ['outcome of build_toc']),
 'C09': (
  'The list nests in a Markdown renderer the way the headings do',
  'For every coherent document of the CommonMark-like dialects, rendering the table with a CommonMark renderer gives one list item per entry whose nesting depth is the level of its heading relative to the first entry. This holds for every bullet and number marker, for any number of digits in the numbers, and without indentation all entries are at the first depth. No entry becomes code, a paragraph of another entry, or part of another list.',
  ['inputs', 'histories', 'configurations'],
  'all coherent sequences of levels, of any length, with numbers of any width, all markers',
  'Indentation is a state per level that depends on the width of the numbers seen before; tests compare a few literal tables and never render them.',
  [API], [('compute_toc_line_indentation_spaces: indentation_log', API), ('init_indentation_log', API), ('build_toc_line', API)],
  ['build_toc result through markdown-it-py']),
 'C10': (
  'Numbers count siblings, constant lists have ones, markers are as asked',
  'In an ordered table of a coherent document each entry has its position among its siblings, starting at one under each parent; in any ordered table an entry deeper than the one before it has number one and an entry as deep as the one before it has the next number. With constant numbering every number is one and the list is ordered whether or not that was asked for; otherwise the list is unordered. The marker is the one asked for, or the default of the dialect when the one asked for cannot end a number.',
  ['inputs', 'histories', 'configurations'],
  'all sequences of levels, coherent or not, and all combinations of list options',
  'Counters are a state over the history of levels; the tests check short sequences of direct calls.',
  [API, CON], [('increase_index_ordered_list', API), ('build_toc: marker override', API), ('build_toc_line_without_indentation', API)],
  ['build_toc result', 'numbers rendered by markdown-it-py']),
 'C11': (
  'Every entry renders as one link to the anchor of its heading',
  'For every heading of the CommonMark-like dialects, a CommonMark renderer shows its entry as a list item that consists of exactly one link, whose target is the anchor of that heading and whose visible text is the visible text of the heading. No bracket, backslash, backquote or other markup in a heading can break the link, nest another one, or let text escape from it (autolinks such as <https://example.org>, which are links of their own, are a known exception).',
  ['inputs'],
  'all heading texts over brackets, parentheses, escapes, code spans, inline raw HTML, delimiters and Unicode',
  'The tests compare strings and never render an entry.',
  [API], [('get_atx_heading: escaping', API), ('build_toc_line_without_indentation: link', API)],
  ['entries of build_toc through markdown-it-py']),
 'C12': (
  'Every text gets an answer: a table or one of the documented refusals',
  'For every text file and every valid set of options, building a table ends within moderate time with a table or with one of the documented errors. No combination of brackets, delimiters, tags, entities, control characters, blanks, line lengths or file shapes causes another exception or an endless loop.',
  ['inputs', 'configurations'],
  'all texts, with lines of up to 4000 characters, all dialects and options',
  'Termination and the absence of crashes quantify over all inputs; the tests use benign ones.',
  [API, CMK, GEN], [('all parsing loops', API), ('inline parser', CMK)],
  ['outcome of build_toc and of the parsing functions']),
 'C13': (
  'Writing in place keeps everything that is not the table',
  'Writing in place leaves every line outside the marked region as it was and in its place, whatever it contains, changes nothing in a file without marker line, keeps prose which stands between two markers, and keeps permissions and symbolic links. Line endings become the ones asked for, as documented. Lines which merely contain or resemble the marker are not markers.',
  ['inputs', 'histories'],
  'all files: any prose, near-markers, kinds of regions, line endings, last lines, sizes, modes, links; all entry points',
  'The tests use some twenty tiny files; the guarantee is about every byte of every file.',
  [API, GEN], [('write_string_on_file_between_markers', API), ('_get_existing_toc, _detect_toc_list, _remove_line_intervals', GEN)],
  ['bytes, mode and links of the file after a run']),
 'C14': (
  'The table goes where the marker is, between exactly two markers',
  'After writing in place, a file that had a single marker line, a pair of markers with nothing between them, or a table written earlier contains at that place exactly: a marker line, an empty line, the current table, an empty line, a marker line. Nothing of the old region remains, whatever the sizes of the old and the new table, and the marker may be any string.',
  ['inputs', 'configurations'],
  'all kinds of regions, old and new tables of any length and options, markers of any text, at any place of the file',
  'The tests insert one-line tables with one marker string.',
  [API, GEN], [('write_string_on_file_between_markers', API), ('_get_existing_toc', GEN)],
  ['lines of the file after a run']),
 'C15': (
  'Writing in place again changes nothing, whatever happened before',
  'Running in place twice with the same options leaves the file byte for byte as after the first run. After any history of runs, edits outside the region and changes of options, the file is the same as if the table had been written for the first time into the current text.',
  ['histories', 'configurations'],
  'all histories of edits, changes of options and runs',
  'Idempotence and history independence need sequences of operations; the tests have a few two-step ones.',
  [API, GEN], [('_get_existing_toc, _detect_toc_list, _string_empty', GEN), ('write_string_on_file_between_markers', API)],
  ['bytes of the file after each run']),
 'C16': (
  'The comparison with the table in the file is exact and only compares',
  'Comparing reports equality exactly when the table in the marked region of the file equals the newly built one, apart from white space at the two ends; any other difference in any line is reported. With the option to report differences the exit status is 128 if at least one of the files differs and 0 if none does, in place or not, and a comparison without writing never modifies a file. Writing in place reports whether the table had been the same before.',
  ['inputs', 'configurations'],
  'all tables and all single edits of them, any number of files, all line endings and options',
  'The tests compare two or three literal tables.',
  [API, GEN, CLI, MAIN], [('tocs_equal', API), ('_get_existing_toc', GEN), ('CliToApi.write_toc: equal and diff', CLI)],
  ['tocs_equal result', 'exit status', 'return value of the write functions']),
 'C17': (
  'The command line does what the API does, and its exit status is right',
  'For every spelling of the options, each file gets printed, or written in place, the same table which the API builds with the same options, files in the order given, and standard input is read when no file or a dash is named. The exit status is 0 for success, 1 with nothing on standard output for an error in a document or file, 2 for an invalid command line and 128 as documented; defaults are the documented ones.',
  ['configurations', 'inputs'],
  'all option combinations and spellings, all dialects, any number of files, standard input',
  'The tests barely touch the command line.',
  [CLI, MAIN, API], [('CliInterface.create_parser', CLI), ('CliToApi.write_toc', CLI), ('main: exit status', MAIN)],
  ['standard output, exit status and files of runs, in process and as real processes']),
 'C18': (
  'A table depends on its text and options and on nothing else',
  'The result for a document is the same whatever was processed before in the same process, including documents which were refused, whatever other files are processed in the same call, in whichever order, from several threads at once, whatever the name, place and attributes of the file and the working directory, and whatever the environment variables (but for those which select a text encoding other than UTF-8) and the hash seed of the interpreter. Arguments handed over by the caller are not changed.',
  ['histories', 'schedules', 'configurations'],
  'all histories of calls, sets and orders of files, thread interleavings, hash seeds',
  'Each test calls once and compares once; leaked state shows only over histories.',
  [API, CMK], [('counters and logs created per call', API), ('module level and default argument state', API)],
  ['results of histories of calls against results of pristine processes']),
 'C19': (
  'Line endings of the input do not matter, those of the output are asked for',
  'A document gives the same entries whether its lines end with LF, CR LF, CR or a mixture, from files and from standard input, and with or without a terminator on the last line. The lines of the table, and all lines of a file written in place, end with the newline string asked for, which changes nothing else, and a file just written compares equal.',
  ['inputs', 'configurations'],
  'all documents, all assignments of line endings to lines, all newline strings, terminators at buffer borders',
  'The tests use LF for almost everything.',
  [API, GEN], [('build_toc: universal newlines', API), ('write_string_on_file_between_markers: newline_string', API), ('_read_line_interval', GEN)],
  ['build_toc result', 'bytes of files written in place', 'tocs_equal result']),
 'C20': (
  'Skipping lines is the same as not having them',
  'Building a table while skipping the first n lines gives exactly the result for the document from which these lines were removed: no heading, repeated anchor, code fence or level in the skipped part has any effect. This holds for n from zero to beyond the end of the document and for standard input; negative numbers are refused; written in place, skipped lines stay in the file.',
  ['inputs', 'configurations'],
  'all documents and all numbers of lines to skip',
  'One test skips a fixed number of lines of one document.',
  [API, CLI], [('build_toc: skip_lines loop', API)],
  ['build_toc result', 'command line output', 'files in place']),
 'C21': (
  'Nothing is touched but the named files, and only when asked to',
  'A run which prints or compares creates, changes and removes nothing in the file system. A run in place changes no file but those named and leaves no additional file behind; if one of the documents is refused or cannot be read, no file is changed at all, and standard input cannot be written in place. No run starts processes, uses the network, changes the working directory or environment, or keeps files open.',
  ['inputs', 'configurations', 'histories'],
  'all sets of files and names, options, outcomes',
  'The tests replace the file system and look at one file; neighbours, temporary files and effects outside are never observed.',
  [API, CLI, GEN], [('CliToApi.write_toc: build all, then write all', CLI), ('write_string_on_file_between_markers', API)],
  ['audit events of the interpreter', 'snapshots of directory trees before and after']),
 'C22': (
  'A failure while writing in place never costs the text of the user',
  'If a run in place is killed, interrupted, refused an operation by the system or runs out of space at any point, each file still exists under its name and still holds every line outside its marked region, in order and undamaged, together with the old table, the new table, or none. A run which was refused an operation reports the failure, unless all files are complete.',
  ['crash_points', 'fault_sequences'],
  'one fault at any executed line, at any file system operation, or at any size of the file being written',
  'No test injects a fault.',
  [API, GEN], [('write to a temporary file, then rename (fpyutils)', GEN), ('write_string_on_file_between_markers', API)],
  ['files after a fault injected by audit hook, line monitoring or resource limit']),
 'C23': (
  'Each option changes what it is about and nothing else',
  'Keeping fewer levels removes exactly the deeper entries; leaving out links, leaving out indentation, another marker, numbering, another newline string and switching off the coherence check change only that aspect of each entry of the table. Dialects documented as equivalent (github and commonmarker, cmark and goldmark) give identical results. A table depends only on the headings: adding or removing other lines, or one level for all headings, does not change it, and the flat unlinked table of two documents in a row is the two tables in a row.',
  ['inputs', 'configurations'],
  'all documents and all pairs of option sets that differ in one option',
  'Relations between runs are not tested; each test fixes one set of options.',
  [API, CON, CLI], [('build_toc', API), ('get_md_header', API), ('parser table', CON)],
  ['pairs of build_toc results', 'get_md_header result']),
 'C24': (
  'A file that is not text gives a notice, never a partial table',
  'A file or standard input which is not valid UTF-8, wherever the offending bytes are, gives as table only the notice which names the file and says that it is probably binary, and other files of the same call are not affected. Written in place it stays untouched and the failure is reported, and it never compares equal. Valid text is never taken for binary.',
  ['inputs'],
  'all kinds and positions of invalid bytes, including the skipped part, code blocks, buffer borders and the end; all valid texts',
  'One test has one binary file.',
  [API], [('build_toc: UnicodeDecodeError handlers', API)],
  ['build_toc result', 'bytes of the file', 'exit status']),
 'C25': (
  'What a dialect cannot express is refused, and only that',
  'In the CommonMark-like dialects with links, a heading, shown or hidden, with more than 999 characters or with nothing but blanks is refused with the dedicated error, and every other heading is accepted; an ordered list marker above 999999999 is refused and every number up to it is accepted. None of these limits applies to the redcarpet dialect, and the limits of labels do not apply without links.',
  ['inputs', 'configurations'],
  'all lengths and contents of headings, all counter values, all dialects, with and without links',
  'The tests check one value on each side of the limits, for some dialects.',
  [API, CON], [('get_atx_heading: label checks', API), ('increase_index_ordered_list: limit', API)],
  ['outcome of build_toc, of increase_index_ordered_list, exit status']),
 'C26': (
  'Invalid requests are refused and have no effect',
  'A request outside the documented values is refused, never answered with a table: a negative number of lines to skip, fewer than one level to keep, a marker which cannot start a bullet, an unknown dialect, a heading text of several lines, a number of tables other than the number of files, a level, index or indentation out of bounds (ValueError, or the dedicated error), a file that cannot be read. On the command line an unknown dialect, option, marker, newline string or number of levels, a missing value and options which exclude each other give exit status 2, an explanation on standard error and nothing on standard output. A refused request changes no file and none of the counters and logs handed over by the caller.',
  ['inputs', 'configurations'],
  'all invalid values of each argument and option, in all combinations with valid ones, all dialects and documents with headings, in place or not',
  'The tests try one or two invalid values of a few functions and no command line.',
  [API, CLI, CON], [('argument checks of the public functions', API), ('CliInterface.create_parser: choices, types, exclusive groups', CLI)],
  ['outcome of calls', 'exit status, standard output and error', 'files, counters and logs before and after']),
 'C27': (
  'The building blocks of the API make up the same table as the whole',
  'Feeding the lines of a document, with or without terminators, to the public functions for fences, headings, numbers, indentation and entries, one after another with one counter and one log per document, gives exactly the table or the refusal which building the table of the file gives. Several lines in one string, however they are terminated, are treated like the same lines one by one, one result per line, line terminators at both ends of the string ignored. Many files are built and written like the files one by one.',
  ['inputs', 'histories', 'configurations'],
  'all documents and strings of several lines, all options, dialects and line terminators',
  'The tests call each function alone with a few lines and never compare the parts with the whole.',
  [API], [('get_md_header, get_atx_heading, replace_and_split_newlines', API), ('is_opening_code_fence, is_closing_code_fence', API), ('increase_index_ordered_list, compute_toc_line_indentation_spaces, build_toc_line', API), ('build_multiple_tocs, write_strings_on_files_between_markers', API)],
  ['results of the public functions', 'build_toc result', 'bytes of files written']),
 'C28': (
  'An argument left out of a call means its documented default',
  'Leaving arguments out of a call of a public function gives exactly what giving their documented defaults gives: the same result or refusal, the same effect on counters, logs and files. This holds whichever of the other arguments are given, by position in the documented order or by name, and whatever was called before. A table built with nothing but a file name is the one for github: bullets made of dashes, links, indentation, coherence checked, three levels, no lines skipped, lines ended like those of the platform.',
  ['configurations', 'inputs', 'histories'],
  'all public functions with optional arguments, all subsets of arguments given, all values, all documents',
  'The tests spell out nearly all arguments, and never compare a call without one with a call with it.',
  [API], [('signatures of the public functions', API), ('build_multiple_tocs, write_strings_on_files_between_markers: arguments passed on', API)],
  ['results of the public functions', 'counters, logs and files after a call']),
}

TECH = {
 'C09': 'runtime monitor: output rendered by markdown-it-py, nesting compared with the headings',
 'C11': 'runtime monitor: entries rendered by markdown-it-py, links and text checked',
 'C12': 'runtime monitor: crash and CPU-time watchdog under grammar, exhaustive and pumping workloads',
 'C18': 'runtime monitor: differential against pristine forked processes, thread stress',
 'C21': 'runtime monitor: interpreter audit hook and directory snapshots',
 'C22': 'fault injection at line, file system and size level, state checker after each fault',
 'C23': 'runtime monitor: metamorphic relations between observed runs',
 'C26': 'runtime monitor: refusals and absence of effects observed for requests with one flaw',
 'C27': 'runtime monitor: parts compared with the whole and with a reference model',
 'C28': 'runtime monitor: calls with and without optional arguments compared, and with a reference model',
 'C15': 'runtime monitor: state checker over histories of edits and runs',
}


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w',
              encoding='utf-8') as f:
        for i, (t, s, over, q, why, files, mech, obs) in P.items():
            assert len(t) <= 80, (i, len(t))
            f.write(json.dumps(dict(
                id=i, title=t, statement=s, quantifier=dict(over=over, text=q),
                why_tests_cant=why, anchors=dict(
                    files=files,
                    mechanism=[dict(name=a, where=b) for a, b in mech],
                    observe_at=obs, hook_needed=None)),
                ensure_ascii=False) + '\n')
    checks = []
    for i in P:
        mod = importlib.import_module(f'mon.props.{i}')
        cmd = f'/opt/venv/bin/python -m mon.main {i} --tier '
        checks.append(dict(
            property=i, quick_cmd=cmd + 'quick',
            thorough_cmd=cmd + 'thorough', evidence_file=f'evidence/{i}.json',
            technique=TECH.get(i, 'runtime monitor: observed results judged '
                               'against an independent reference model'),
            level=mod.LEVEL,
            level_note=('Holds on all executions the monitors observed (see '
                        'the evidence file: cases, distinct states, events); '
                        'no claim about inputs not run. Trusts the oracle: ' +
                        ('; '.join(mod.ASSUMPTIONS) or 'stated in the module')
                        + '.')))
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w',
              encoding='utf-8') as f:
        json.dump(dict(
            version=1,
            setup_cmd='/opt/venv/bin/python -c "import markdown_it, fpyutils"',
            checks=checks, not_applicable=[],
            notes='No hooks in /repo: the monitors observe the public '
                  'boundary, audit events and files. Checks import md_toc '
                  'from the working tree of /repo.'), f, indent=1,
            ensure_ascii=False)
        f.write('\n')


main()

"""Write DESIGN.md: the texts below, the props of checks/*.py, known_findings.txt and seeded/*/meta.json.

Development only (PYTHONPATH=/repo python3-vt tools/design.py); no check uses it.
"""
import glob
import importlib
import json
import os
import re
import sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [here, os.path.join(here, 'tools')]
from props import P  # noqa: E402

HEAD = """# Design

Property-based testing of Cheetah3 (the template engine in /repo): %(n)d properties, each decided by
generated-input search against an explicit oracle.  This file is written by `tools/design.py`; the per-property
texts are in that file, the generator inventory comes from `checks/*.py`.

## Machinery

* `run.sh PID quick|thorough` runs `vlib/runner.py`: it compiles `/repo/Cheetah/c/_namemapper.c` into a scratch
  directory, then runs the shards of every *prop* of `checks/<pid>.py` in worker processes (8 at a time); a prop
  marked `pure` runs part of its shards with the pure-Python NameMapper.  Cheetah is imported from /repo's working
  tree; nothing is written there (`sys.dont_write_bytecode`, scratch directories under $TMPDIR, removed at the end).
* A *prop* is a generator of plain-literal cases plus `check(case)`.  Most generators are functions of a `Source`
  (`vlib/core.py`): a case is determined by a sequence of small integer choices, seeded from VERIF_SEED, prop and shard.
  A failing case is shrunk by deleting and lowering entries of that sequence and generating again (40 s at most); a
  generator may also be a Hypothesis strategy, which then does the same.  The smallest failing case is written to
  `evidence/replay/<pid>-<prop>.json`; `run.sh PID --replay FILE` runs it again without the generator.
* An exception that comes out of Cheetah where the oracle expects none is a violation; an exception of the harness
  itself is an error exit (2).  A case that burns 25 s of CPU time (normal: milliseconds) is a violation (CPU time, so
  that a busy machine does not matter); a worker that dies of a signal is a violation with the case it was running.
* Time is never slept: checks that depend on the clock (C07, C08) replace `time.time` (`vlib/clock.py`).  Thread
  schedules (C10) are generated and enforced by a baton, so they replay exactly.  Destructive paths (C17, C18) run in a
  forked child, as an unprivileged user, in a directory made for the case.
* `vlib/lang.py` is the shared model of the template language: a generator of programs (nodes) with printers for all
  layouts and an independent interpreter.  C02, C04, C06, C10, C12, C15, C17, C20 use it.
* Each evidence file has the number of cases generated, how many were non-trivial by the stated rule, label counts and
  samples.
* Quick: the numbers below (10-45 s per property on 8 cores).  Thorough: 12 times as many cases, other seeds.
* Nothing listed is left to another technique: `not_applicable` is empty.  All levels are *exploration*: a passing run
  says that the property held on the generated cases, not that it is proved.
* No hooks were added to /repo.

## Properties

"""

TEXT = {
 'C01': ("The case is a list of text fragments and a context; the expected output is computed by a small lexer that knows which `$`/`#` start syntax (inert ones stay, escaped ones lose the backslash). All Unicode except NUL and lone surrogates (Python source cannot hold them).",
         "Text is turned into a Python literal by quoting code with special cases for quotes, backslashes and line ends; only arbitrary mixtures reach them."),
 'C02': ("Programs of nesting depth 3 over all control-flow directives with call-tracing functions in the expressions; oracle: the interpreter of `vlib/lang.py`, output and trace of evaluated calls (order, number) compared, also the exception that leaves the template.",
         "The tests run each directive alone; layout x nesting x short form x early exit is a product space."),
 'C03': ("Object graphs (mappings, objects, properties, raising attributes, callables of every kind) and dotted names; oracle: a reference resolver written from the Users' Guide. `cascade` puts one name in several of the eight namespaces and asks which wins, under the settings that change the order.",
         "The order of namespaces and what counts as callable only show with clashing names."),
 'C04': ("One object graph is given to both implementations (loaded side by side) and value identity, calls made and exceptions are compared; reference counts of all objects, allocated blocks and resident size are compared around repetitions; objects that mutate or raise during the lookup provoke error paths. Known deviations are listed findings.",
         "Leaks and crashes are invisible to value-comparing tests."),
 'C05': ("Chains of attribute/call/subscript steps with nested arguments are printed in all placeholder forms and evaluated directly in Python; expressions likewise. The text after the placeholder is part of the case.",
         "Where a placeholder ends depends on the characters after it: an open input space."),
 'C06': ("Programs with nested #filter regions and early exits; recording filters note every value and keyword argument; the model predicts the sequence. Laws of the standard filters (WebSafe, Strip, MaxLen ...) are checked against direct definitions.",
         "A filter that leaks out of its region shows only after an early exit or in a later render."),
 'C07': ("Histories of renders, value changes, clock advances, failures and refreshCache calls over templates with all kinds of cached parts; a model of regions and items predicts for each render which parts are evaluated (counted) and which text is reused.",
         "Expiry is a property of histories and of the clock; tests sleep once or twice."),
 'C08': ("Histories of set/add/replace/get/delete/clear with clock advances against a dictionary with expiry times; the memcached wrapper runs over a stand-in client with memcached's contract.",
         "Combinations of operation, presence and expiry."),
 'C09': ("Histories of compile calls whose arguments nearly collide (equal hashes, equal but distinct types, shifted concatenations), file changes with equal or changed mtime, in-place changes of argument objects; the result of each call is compared with that of a fresh compilation.",
         "A wrong cache key shows only for two calls that differ in exactly the forgotten argument."),
 'C10': ("Renders of several instances repeated, nested in one another and in threads under generated schedules; every render must equal the reference for its own inputs.",
         "State that leaks between renders needs a particular history or schedule."),
 'C11': ("Chains of templates and Python classes; the oracle builds the same hierarchy of plain Python classes, so method resolution and super() are Python's own. Every entry point (respond, str, each method) is compared. `instances` gives a source to a Python subclass of Template.",
         "Tests have chains of one or two levels."),
 'C12': ("Include graphs over files, strings and file-like objects, raw and parsed, with file changes between renders; the interpreter of vlib/lang.py inlines the included programs under the includer's namespaces.",
         "Caching of includes and name spaces of nested templates depend on histories."),
 'C13': ("(a) token soup and mutated programs: compilation ends with a template or with ParseError/SyntaxError-kind errors whose row and column are inside the source and whose str() works; (b) one fault of known kind on a known line: rejected, and the reported line is the fault's line (or the open directive's).",
         "The space of malformed inputs cannot be listed; no other exception type may escape."),
 'C14': ("Templates are generated with an inventory of directives and expression markers, plus decoys in comments and #raw; with a directive disabled the template must be refused iff the inventory has it; hooks must see every marker exactly with the right kind.",
         "A forgotten hook call is silent on all templates the tests use."),
 'C15': ("Programs printed with other tokens (set by four routes, also in the middle of a source and reset again) must render as the reference says; neutral settings must change nothing.",
         "Products of token choices."),
 'C16': ("Differential: the template with every macro call or preprocessor construct replaced by hand must render the same; recording macros check the arguments they get.",
         "Forms of macro call x position x content."),
 'C17': ("A generated program in one of several encodings is compiled by source, file, file object, command line, import hook, CheetahWrapper, module code ...; all must render what the interpreter predicts.",
         "Differences between routes show with non-ASCII text or unusual names only."),
 'C18': ("Generated directory trees and command lines; the whole tree (names, contents, modes of change) before and after is compared with a model of the documented path mapping, plus stdout/stderr/exit code.",
         "20 options in combination."),
 'C19': ("Setting trees, configuration texts and Python sources merged into managers in histories; a reference merge/parse says the result, and the caller's objects must be unchanged.",
         "Aliasing shows only in a later update."),
 'C20': ("Programs whose bodies mix the buffered regions with control flow leaving them early, with and without a transaction; the interpreter predicts output and what each region captured.",
         "Early exits from nested regions are a product space."),
 'C21': ("Requests (GET, POST, multipart, cookies, sessions) against the documentation of webInput(): type conversion, defaults, bad values, exceptions.",
         "Values x converters x defaults."),
 'C22': ("Templates whose placeholders succeed, miss or raise under each catcher, switched within the source; the model predicts the output, the recorded list and the exceptions.",
         "Switching catchers and equal placeholders at different positions."),
 'C23': ("A few names are used in all scopes at once over methods, instances and renders; a model with explicit namespaces predicts every read.",
         "Scope errors need a name clash and a history."),
 'C24': ("Methods of generated signatures are called from all kinds of site; a Python function with the same signature is the oracle for binding and for TypeErrors. Generators (#yield) against a Python generator.",
         "Signatures x call sites."),
 'C25': ("Layouts of directives, comments and #slurp; a model of the documented white-space rules gives the exact output. Where the documentation is silent (explicitly closed tag that spans lines or stands at the end of the file) the generator does not go.",
         "White space depends on what stands before and after on the line."),
 'C26': ("Version triples (total order, reference key), MondoReport statistics against direct computation, RecursiveNull laws, SiteHierarchy against a tree walk, directive analyzer against the inventory, #indent histories.",
         "Laws over all inputs."),
 'C27': ("Every position of generated texts against str.splitlines-free reference counting (CR, LF, CRLF only); cursor histories against a text and an index; positions recorded for placeholders.",
         "Line ends of all kinds."),
 'C28': ("Documentation, header and variable comments with arbitrary text; the compiled module's docstrings, header lines and constants must hold the text as written, and the output must be unchanged.",
         "Quotes and backslashes inside comments become Python source."),
 'C29': ("Programs of PSP sections (expressions, statement lists, blocks opened by ':' or '$', write()), text, placeholders and directives; the oracle runs the corresponding Python program directly with an output list. Not generated: triple-quoted strings over several lines inside a section (their lines get indented with the code), form feeds and U+2028 inside strings, comments inside <%= %>.",
         "Sections are stripped, dedented, re-indented and terminated by rules that interact."),
 'C30': ("Pages of SkeletonPage with generated attributes, meta tags, style sheets, scripts, body attributes and overridden parts, rendered up to three times with changes and header refreshes in between; the oracle composes the page from the template's text. CGITemplate under generated environments; write histories on responses; server side paths against a resolution by hand. The external program that imgTag asks for image sizes is replaced by a stand-in.",
         "No test touches these classes; two of their methods were plainly broken."),
 'C31': ("Templates in portions, each with its own name mapping, search list, autocalling, filter and None settings (as lines, regions, resets) and optionally in methods, with chains of names, calls and subscripts over objects that log their calls; a model evaluates every chain under the settings in force on the same objects. Trees of blocks with generated markers; imports from a recording module at any nesting in several methods in both import modes; every way to name a base class; gettext calls in every kind of directive, looked up in the syntax tree of the module and compared with the same template under other names.",
         "The tests never change such a setting inside a template; doing so was broken (NameError), and the start marker of a one-line block came after its text."),
 'C32': ("Templates are made in eleven ways (source, file name, file object, compiled class, subclass, other base classes) with generated namespaces (dictionaries, objects, modules; list, tuple, single), filters, tokens and class defaults; the oracle looks every name up itself. Wrong values from tables of foreign types for every argument, mixed with good ones, must raise TypeError naming the argument and leave no module behind. The generated code is parsed and compared with the class; cache regions are counted; shutdown is checked on the instance and its siblings.",
         "The tests construct templates in two or three forms and check no mixture of arguments."),
 'C33': ("Sets of directive names are drawn from names that begin like built-in ones and like one another, with handlers in four forms and settings given in three ways; templates nest them with #if, #for, #call, #capture, #block, #filter and #try in line, closed, indented and single-line form. The same tree written with #echo and #for is the oracle; a fault (unclosed, unopened, mismatched, disabled) is added at the end. A second generator switches built-in directives off and compares with the same text escaped.",
         "No test registers a directive of its own; one whose name begins like a built-in one could not be closed."),
}
TEXT.update(json.load(open(os.path.join(here, 'tools', 'design_more.json')))
            if os.path.exists(os.path.join(here, 'tools', 'design_more.json')) else {})

TAIL = """
## Genuine defects

Each was shown against the real code by a generated case.  Small repairs are `fix:` commits in /repo; the others are
listed findings, replayed by every run.

%(findings)s

Seen, but outside the listed properties or without an accepted reading of the documentation (not generated):
NUL characters and lone surrogates in a source (Python cannot compile them); names of the generated code
(`trans`, `write`, `SL`, `self`) hide searchList variables of the same name; `refreshCache(id, item)` with a false item
clears the region; varyBy values 1 and '1' share an item; triple-quoted strings with b/f prefixes in expressions;
`#indent` in plain text switches the indentation processor on; the setting `monitorSrcFile` (undocumented) raises
TypeError when the file changes; text before the first #arg of a #call joins the first argument; `#end iffy` is read as
`#end if`; chained `#set $x = $y = 3` is rejected; FileUtils.FindAndReplace (unused) is broken in Python 3.

## False alarms and what was done about them

A report on the unchanged tree was always reduced and read against the documentation first.  Where Cheetah was right, or
the documentation does not say, the model was corrected or the generator restricted; the notable cases:

* time limits count CPU time, not wall-clock time, so that a busy machine raises no alarm;
* white space of a tag that is closed explicitly and spans lines, or stands at the end of the file, is unspecified and
  not generated (C25); `#end raw`, `#end i18n` and `#end compiler-settings` lose their indentation even if closed
  explicitly (model follows);
* an empty suite is a Python error, so generated bodies hold at least one statement (C02, C20);
* getVar/varExists see the searchList only, not local variables (C03); `#yield` drops the text after the last one (C24);
* names of dictionary methods, names with 15 or more parts, and mappings that raise from `__getitem__` differ from the
  documentation or between the two NameMappers: those are listed findings, not exemptions (C03, C04);

## Planted bugs

`tools/plant.sh` tries each change in a private copy: builds, demo fails with it and passes without, the 4373 tests
pass, and then the check of its property is run.  Those kept in `seeded/` and the property whose check catches them:

%(seeded)s
"""


def main():
    out = [HEAD % {'n': len(P)}]
    for p in P:
        out.append('### %s %s\n' % (p['id'], p['title']))
        t = TEXT.get(p['id'])
        if t:
            out.append('*Specified, generated, oracle.* %s\n' % t[0])
            out.append('*Beyond the tests.* %s\n' % t[1])
        try:
            m = importlib.import_module('checks.' + p['id'].lower())
        except ImportError:
            out.append('(not built yet)\n')
            continue
        for q in m.PROPS:
            out.append('* `%s` (%d cases quick, %d thorough%s): %s.' % (
                q.name, q.quick, q.thorough,
                ', C and pure NameMapper' if 'pure' in q.modes else '',
                q.rule.rstrip('.')))
        out.append('')
    find = []
    for ln in open(os.path.join(here, 'known_findings.txt')):
        m = re.match(r'(fixed|finding): property=(\S+) (.*)', ln.strip())
        if m:
            find.append('* %s, %s: %s' % (m.group(2), m.group(1), m.group(3)))
    seeded = ['| bug | property | needs | breaks |', '|---|---|---|---|']
    for f in sorted(glob.glob(os.path.join(here, 'seeded', '*', 'meta.json'))):
        m = json.load(open(f))
        seeded.append('| %s | %s | %s | %s |' % (
            os.path.basename(os.path.dirname(f)), m['property'],
            m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/')))
    out.append(TAIL.lstrip('\n') % {'findings': '\n'.join(find), 'seeded': '\n'.join(seeded)})
    with open(os.path.join(here, 'DESIGN.md'), 'w') as f:
        f.write('\n'.join(out))


main()

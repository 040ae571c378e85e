import re, json,os,collections
T='''# Model checking parsel

parsel is a sequential, deterministic library: no threads, no I/O, no state that is meant to
outlive a call. The nondeterminism that matters is the *environment's choice*: which token comes
next, which grammar type is instantiated, how the source is laid out, which public operation is
called next on a container, at which write the output sink fails, what ran before. Model checking
here is therefore stateless exhaustive exploration of the **real code** (never of a transcription
of it), driven by small closed drivers, with an executable reference model as the oracle at every
step: every operation sequence, input shape or environment answer up to a bound, nothing sampled.

Unit tests look at one input per feature. What they cannot settle is what these drivers do: all
token trees up to a size, all edits of all derivable sequences, all histories up to a depth, all
fault points, all pairs of a boundary domain, and long regular inputs with every placement of one
or two deviations.

## Machinery

* `check.py <ID> [--replay FILE]` removes cargo's fingerprints of everything that depends on
  /repo, rebuilds `mc/src/bin/<id>.rs` against /repo's working tree, runs the exploration (address
  space limited to 20 GB), confirms whatever fails and writes `evidence/<ID>.json`. Exit 0: held on
  everything explored. Exit 1 with `VIOLATION`: broken. Exit 2: no answer (does not build, a
  failure of the harness itself, a vacuous suite, out of time).
* `mc/` is a Rust crate with a path dependency on /repo/parsel and its own workspace.
  - `tok.rs`: model tokens, and rendering to a source text with known places (line, column, byte,
    character) of every token;
  - `explore.rs`: enumerators: `Forests` (**all token trees** up to n symbols over an alphabet and a
    set of delimiters), derivable sequences of a grammar up to n symbols with **all single edits**
    (insert, delete, replace, at any place and depth) and all double edits of the short ones, `long`
    (periodic inputs of given lengths with every placement of up to k deviations), `Seqs` (all
    sequences over a menu), suites of histories by mixed-radix index;
  - `gram.rs`: the **reference interpreter**: a PEG with Parsel's documented semantics over model
    tokens, giving tree, consumption, leftovers inside groups, all furthest failures with their
    chain of contexts, node places, jointness of printed tokens and tries per production and place;
  - `spec.rs`: the binding: `trait Spec` gives each real type its grammar, a description of real
    values in the model's terms and a way to rebuild a value in code; `conform*` run one type on one
    input, as a prefix parse and as a whole parse, and compare everything observable. The types under
    test are real Rust types (`grammar!` derives Parse, ToTokens, FromStr, Display with the real
    derives);
  - `run.rs`: 8 workers over a suite's indices, panics caught, heartbeat watchdog (25 s per case), a
    journal in a shared mapping so that stack overflow, abort or memory exhaustion name their case.
    Suites declare the outcomes they must see ("accepted", "rejected", "leftover in group", ...); a
    suite without one of them is *vacuous* and the check gives no answer, so that an exploration
    which silently stopped exploring cannot pass.
* A failing case is run again alone in a fresh process before it is reported; one that fails only
  after others (state that leaks between calls) is confirmed by running its suite again on one
  thread, on all, or everything, and is then reported as depending on what ran before.
* `mc/src/must/<id>.rs`: programs that have to compile (const contexts, trait bounds, macro forms):
  if they are what keeps an explorer from building, that is a violation, not "no answer".
* `tools/c25.py` generates the type definitions of C25; `pm/` is the procedural macro of C31.
* No hooks in /repo were needed: everything is observed through the public interface.

### Conformance of model and code

There is no separate model whose traces would have to be replayed: the model and the code run in
lock-step on every enumerated case (`traces_validated_against_impl` in the evidence is the number of
runs of the real code), and any disagreement is a failure. The remaining question is whether the
model says what parsel documents; it was written from the documentation and the statements in
properties.jsonl, not from the code, and disagreements found while building it led to the eight
repairs below or to corrections of the model listed under "false alarms".

### Bounds common to all grammar suites

Derivable sequences per type are capped at 3000 (shortest first), with the cap met only by types of
many alternatives; long inputs reach 70 000 or more tokens for lists, 8195 for chains (trees that
deep are dropped recursively by Rust itself), nesting reaches 100 to 200 levels. `VERIF_TIER=thorough`
raises tree sizes by one or two symbols, sequences by two or three, edits to pairs of edits for
longer sequences, lengths to a denser grid.

## Properties and how each is decided

Every property is decided by exhaustive enumeration on the real code; none is left out
("not_applicable" is empty). Numbers are from one quick run on the unchanged tree (model states
compared / runs of the real code / seconds including the build, on 8 cores).

'''
desc={
"C01":("struct and single-variant shapes of 0 to 70 fields (named, tuple, unit; recursive, generic, attributed, repeated and unordered field types) on all token trees up to 4 symbols, all edits of derivable sequences up to 8 (140 for the widest), long productions","reference interpreter: fields, order, consumption, leftovers"),
"C02":("alternations of 0 to 71 alternatives (enums of every variant shape, Either, nested, recursive, unit and nullable alternatives), common prefixes of up to 131 tokens","reference interpreter (ordered choice; a failed attempt leaves no trace)"),
"C03":("the same failing runs in up to three layouts (lines, multi-byte text)","set of furthest failures of the model: location and full message chain must be one of them"),
"C04":("compositions of Maybe (prefixes and bodies of one or more tokens, nullable, nested, in lists)","reference interpreter; printing"),
"C05":("Paren, Bracket, Brace over every content, nested, wrong and missing delimiters; values rebuilt from parts","reference interpreter; printing"),
"C06":("Punctuated and Many over one- and multi-token items and separators; runs up to 131 075 tokens","reference interpreter; printing, rebuilding"),
"C07":("Separated likewise, with everything that may follow it","reference interpreter; printing, rebuilding"),
"C08":("all histories of up to 4 public operations from every initial list, every operation at lengths to 5001, insertion everywhere","plain list model; every accessor and conversion compared after each history"),
"C09":("Any over items whose failing attempt looks at several tokens, and followers; runs up to 70 000","reference interpreter; printing"),
"C10":("chains with one-, multi-token and nullable operators and operands; LeftAssoc against RightAssoc against Separated on the same input; chains up to 8195 tokens","reference interpreter; in-order reading"),
"C11":("Empty, Eof, NotEof in every embedding (sequence, option, alternation, list, group)","reference interpreter"),
"C12":("all words up to a length over an alphabet, Rust's keywords, raw forms, near-misses of every declared keyword, words up to 1000 characters, all other kinds of tokens, against 11 keyword declarations","set membership; printing, comparison, conversion"),
"C13":("every value that a bounded token tree parses to, for 115 types; the same assembled in code in six ways; deep nesting; lengths to 4100; all literal values","identity of trees after printing through tokens and both texts"),
"C14":("the same inputs in several layouts, all operators","every printed token against the consumed one: spelling, nesting, place, jointness"),
"C15":("all spellings over alphabets of parts; integers around every power of two and ten, in all radices and groupings, up to 1000 digits; floats of every exponent; all 1 114 112 characters; strings up to a length; every conversion and constructor","independent decoder (arbitrary precision for integers, correctly rounded floats by std)"),
"C16":("all pairs over boundary domains of each literal type, of spellings, words and accepted inputs of 115 types; two hashers; maps","comparison of the raw values, of the trees"),
"C17":("all token trees, all pairs and triples of kinds of neighbours, operator texts, literals, names, source texts, indentations of all whitespace, write histories with refused calls, streams up to 65 537 tokens and every length to 400","re-lexing"),
"C18":("all token trees of several alphabets, lone invisible groups, deep and wide streams, every length to 400, twelve indentations, all entry points","independent layout model"),
"C19":("every call of the writer refused, every capacity, for every token tree up to a size and every displayed type; all characters and short strings as indentation","prefix relation, error returned, nothing written afterwards; char::is_whitespace"),
"C20":("115 types: token trees, derivable sequences and edits, all texts up to 3 characters over an alphabet, decorated accepted texts, lengths to 4100; flags","parse_str, FromStr and the parser must agree; formatter model for Display"),
"C21":("115 types x layouts from 19 kinds of gaps (line endings, multi-byte, comments, byte order mark), every gap in every form up to 4 gaps, after other sources, up to 131 073 lines or columns away","places known by construction"),
"C22":("every node of 115 types; conversions between parsel's, syn's and raw forms; histories of set_span","reference interpreter's node places"),
"C23":("all histories of iterator calls up to a depth on every iterator up to a length, both sides, all adaptors and trait impls","the plain iterator"),
"C24":("all histories of up to 4 (groups: 5) operations on Punctuated, Any, Maybe, Paren, Bracket, Brace; operations at lengths to 5001; collecting from four kinds of iterators at every length to 300; elements of every size and shape","plain lists, options, pairs"),
"C25":("some 2400 derived types: product of shapes, generics and where clauses, plus names, positions, attributes, visibility","they compile; reference interpreter on the inputs of each; unions refused"),
"C26":("115 types on all token trees; instrumented leaf parsers; growth on repeated, nested and failing inputs","terminates; tries per place <= 3x the model's + 3, linear <= 3n + 6, each alternative once per place"),
"C27":("all quotation templates of up to three parts over eight parts, with values and lists interpolated, for parse_quote and both try_ macros, spanned and not","reference interpreter on the expanded text; locations; must compile in every documented position"),
"C28":("every run of tokens at every level of every enumerated input wrapped in an invisible group, twice for short ones, for 115 types and all operators","the same input without groups"),
"C29":("all histories of 1, 2 and 3 calls over a menu of 77 (parsing, failing, panicking, reentrant, printing, formatting, refusing writers), calls repeated up to hundreds of times, all calls in many orders, every type after every other, on another thread","each call alone in a fresh process"),
"C30":("every value of 115 types cloned, clone_from over every other shape, changed afterwards; all literal values; Default of every type","the original's description, printing and locations"),
"C32":("115 types and 29 of several-token parts on token trees, derivable sequences and edits, long inputs with one deviation, in up to 3 source layouts","where the reference model gets stuck, and what the parser of that part says alone; first leftover tokens"),
"C31":("115 types on token trees, one-line and several-line programs, derivable sequences and edits, long inputs, words and literals of every form, all values, inside a procedural macro run by rustc","the same observation made outside (which C01 to C22 compare with the models)"),
}
out=T
out+='| id | enumerated | oracle | states | runs | s |\n|----|-----------|--------|-------:|-----:|--:|\n'
for k in sorted(desc):
    f=f'/verif/evidence/{k}.json'
    n=('?','?','?')
    g=f'/root/.vp/check/logs/clean.{k}.log'  # what the last vcheck reported, if it ran
    m=os.path.exists(g) and re.search(r'held on (\d+) model states, \d+ transitions, (\d+) runs .*, ([\d.]+) s\)',open(g).read())
    if m: n=(m[1],m[2],round(float(m[3])))
    elif os.path.exists(f):
        e=json.load(open(f)); c=e['coverage']; n=(c['states'],c['traces_validated_against_impl'],round(e['wall_s']))
    out+=f'| {k} | {desc[k][0]} | {desc[k][1]} | {n[0]} | {n[1]} | {n[2]} |\n'
out+='''
## Assumptions

syn, proc-macro2, quote, ordered-float and the Rust toolchain behave as released; their behaviour is
used as found (places of tokens, lexing, arithmetic of std).

## What is left open, and why

* A repeated production that consumes nothing (`Any<Empty>`, `Many<Maybe<..>>`) loops forever, as the
  grammar says; such grammars are not generated. Recursive alternations backtrack exponentially by
  nature of PEG without memoisation; C26 bounds tries against the model's instead of absolutely.
* Stack depth: nesting is explored to about 200 levels; how deep a program may nest before the stack
  ends depends on the platform.
* Errors at the very end of a whole input have no place in syn ("unlocated", call_site); C03 and C04
  compare them as such. Leftovers inside a group are no local failure: they fail the whole parse
  (syn's way), which the model follows.
* Empty invisible groups, and the places of errors in the presence of invisible groups (C28); the
  formatter's treatment of invisible groups beside other tokens is only required to re-lex (C17), a
  lone one is laid out as its content (C18).
* `1f32` (lexically an integer with a float suffix): which literal kind takes it is open (C15).
  `LitUint` on `-0` is open. `Int(n)` and `Uint(n)` within `Lit` are not compared. 1e309 parses to
  infinity, as Rust's own parsing does.
* Display: width and precision are only checked where padding cannot matter (C20); an `Either` of a
  single token and a longer production may be displayed by either rule (spacing of a negative literal);
  sign and digits of a printed negative literal may share a location.
* Zero pairs given to `Separated::extend` at a missing separator, and other calls whose result the
  documentation does not state, are not called.
* C26 counts tries of productions, not bytes copied or time.
* C27: the locations of tokens written literally in a plain `quote!` form are open.
* C31: inside a stable compiler, places at the end of the input, of lifetimes and of negative literals
  are left out, and the spelling of escapes in byte strings is normalised: the compiler itself prints
  them differently.
* Derives alone on a union: FromStr and Display on a *generic* union compile (they only need Parse and
  ToTokens, which do not); C25 asks only that Parse and ToTokens are refused. `#[parsel(recursive)]`
  drops the field's bound; where another use of a parameter would have needed it, rustc says so: not
  generated.

## False alarms met, and what was corrected

* C25 first asked that every derive be refused on unions: too strong (above); the statement was narrowed.
* C03 first compared messages at the end of input word by word: syn words them by how the input was
  given; now by context chain and unlocatedness.
* C21 first assumed `Span::join`; outside nightly compilers it differs: C31 leaves those places out.
* C15 first treated `1f32` as a float: left open, as rustc's lexer calls it an integer.
* C17/C18 first fixed the layout of every invisible group: only a lone one is fixed.

After a batch of behaviour-preserving edits (helpers extracted, loops rewritten, statements
reordered, matches turned into combinators, in ast.rs, util.rs and the derives together) all checks
stayed quiet.

## Genuine defects found (all repaired by a `fix:` commit)

See KNOWN_FINDINGS.txt. In short: printing an infinite LitFloat panicked (C13); `Lit` from `-0` did not
survive printing (C13); derive(ToTokens) on an enum with a field called `tokens`, on an empty enum, and
derive(Parse) with a type called `Err` in scope did not compile (C25); printing a keyword declared raw
panicked (C12); a failed write left the formatter indented (C17, C29); tokens in an invisible group were
broken over lines (C18).

## Planted bugs

`seeded/` holds the planted bugs, each with a demonstration, written from a property's text and the
code in ten batches, among them: state that leaks between calls, fast paths that are wrong on rare
inputs, limits crossed only by long, wide, deep or far inputs, name clashes in derived code, wrong
behaviour only inside a procedural macro. Each is caught by the check of its own property (run one by
one on a copy of the tree). Those missed at first led to these extensions:

* lengths and widths: very long lists, chains and texts, productions of 70 fields, enums of 71
  variants, words of 1000 characters, integers of 1000 digits, places 131 073 lines away;
* state: C29's histories with panics, reentrancy and refused writers, one process per call as the
  oracle, and the confirmation of failures that need a history;
* C25's names, positions and attributes; C12's raw forms; C24's element types of every size;
* C31, the procedural macro; C28, invisible groups; C30, clone_from.

'''
d=collections.defaultdict(list)
for i in sorted(os.listdir('/verif/seeded')): d[json.load(open(f'/verif/seeded/{i}/meta.json'))['property']].append(i)
out+='| property and catching check | planted bugs |\n|---|---|\n'
for k in sorted(d): out+=f"| {k} | {', '.join(x[4:] for x in d[k])} |\n"
open('/verif/DESIGN.md','w').write(out)

SE = 'bounded symbolic execution of the real code; z3 decides path feasibility and assertions over all values in the bounds'
TECH = {}
NOTE = {}


def add(pid, note, tech=SE):
    TECH[pid] = tech
    NOTE[pid] = note


add('C18', 'Holds for every character value within the stated lengths (raw strings up to 4/6 characters, up to 3 pairs); '
           'decided per path by interval domains, normal forms and z3; longer inputs are outside the claim.')
add('C14', 'Every setter of every response class, values of up to 3 (thorough: 5) arbitrary characters, all statuses and all letter '
           'cases of the forbidden names; longer values and HeaderDict.update are outside the claim.')
add('C01', 'Every path of up to 5 (thorough: 7) characters against sets of two and three rules whose literal characters are '
           'symbolic; larger rule sets and longer paths are outside the claim.')
add('C02', 'Every method name of 3-4 letters in registration programs of up to 3 operations and every request method of 1-8 letters '
           'against concrete registrations; non-letter method names are outside the claim.')
add('C19', 'One rule at a time (every filter, literal characters symbolic) and every path of up to 5 (thorough: 7) characters plus long '
           'number prefixes; numeric rules over ASCII and two other digits; rules of more wildcards are outside the claim. One known finding.')
add('C11', 'All operand choices of the listed edit histories (up to four registrations plus one to three edits) over 8 sets of four rules, '
           'compared with a freshly built router and an independent hook oracle for every path of up to 3-4 characters; longer '
           'histories and larger rule sets are outside the claim.')
add('C20', '15 error kinds with debug off, each source of request text with up to 3 (thorough: 4) arbitrary Latin-1 characters; longer texts are '
           'outside the claim; error bodies the application wrote itself and the JSON form of the last-resort page are not judged.')
add('C03', 'Handler programs (17 outcome kinds, nested up to 5 deep) with symbolic chunk contents, statuses 100..999 and status lines of up to 6 '
           '(thorough: 7) characters, up to 3+3 hooks; text file-likes, BaseException subclasses and application-chosen header names are outside the claim.')
add('C06', 'Bodies of 0..2 parts whose data, header and epilogue bytes are symbolic in templates rich in look-alikes, 8 boundaries and every boundary of '
           '1-2 (thorough: 3) characters; every single and double cut and five regular divisions, every prefix; larger bodies are outside the claim.')
add('C04', 'Content, lengths, Content-Length, buffer size and fragment sizes are solver variables up to 2^20 with at most 6 (thorough: 12) stream reads; in addition '
           'every fragmentation of bodies of up to 5 (thorough: 7) bytes. More reads are outside the claim.')
add('C05', 'Encodings of 0..3 chunks with symbolic hex sizes and payload lengths up to 65536, every cut position, every single-byte corruption of the '
           'framing of small encodings, every byte string of up to 6 (thorough: 7) bytes; size lines longer than the buffer may be refused.')
add('C13', 'Limit, threshold, body length and fragments are solver variables up to 65536 (bounded number of reads and chunks); multipart in 9 shapes with the '
           'thresholds at every edge. Framing bytes of chunked bodies are not counted against the limit.')
add('C07', 'Forms of 0..5 parts written by an independent encoder, with symbolic names, filenames, content types, texts, contents and boundaries in templates '
           'rich in look-alikes; every framing, in memory and on disk, and several ways to read an upload. Larger forms are outside the claim.')
add('C12', 'Every single-byte edit and truncation of four multipart bodies, templates of headers, delimiters, JSON and urlencoded text with arbitrary bytes, '
           'arbitrary content types and Content-Length characters, 12 access orders; larger bodies and combinations of distant edits are outside the claim.')
add('C15', 'Names, values and secrets of up to 2 (thorough: 3) arbitrary characters in templates; every position of signed cookies replaced, inserted, deleted, cut, moved; '
           'HMAC is an ideal MAC whose digests may differ in a single byte, pickle an observed stand-in. Cookie attributes are outside the claim.')
add('C16', 'Roots and names from templates with up to 4 (thorough: 6) arbitrary characters over a stand-in file system where every name exists, is missing, special, '
           'unreadable, or exists only outside the root; symbolic links are outside the claim.')
add('C17', 'Files of a symbolic length (0..40 bytes and around multiples of the streaming buffer) with opaque content; Range headers from the grammar with up to 8 symbolic digits and '
           'near misses with up to 4 (thorough: 5) arbitrary characters; dates in three formats, several time zones. Files that change while served are outside the claim.')
add('C09', 'Histories of 2 and 3 requests of 36 kinds with symbolic values against a fresh application with the state of all modules put back; retention by weak references over 6 '
           '(thorough: 12) rounds. Longer histories are outside the claim.')
add('C10', 'Arrangements of 2 and 3 applications (also the module-level one), 31 events while one of them serves, nested, chained, between chunks, afterwards and on another thread that takes '
           'turns at calls; symbolic values. Interleavings at statements are C08.')
add('C08', 'Pairs and triples of 32 kinds of requests with symbolic values; the statement after which the threads change is a symbolic variable of the exploration. Both serial orders are run with a '
           'comparison of all shared state after every statement; where shared state changes, the interleavings around every such place (2 preemptions, 3 threads: 3) are executed, '
           'elsewhere evenly spread places. Library calls are one step; more preemptions are outside the claim where shared state changes.')

"""Which function decides which property, and by which rule."""
from . import rules_session as rs
from . import script

TABLE = {
    'C01': (rs.c01, 'Every abstract history of the open callback that ends in a status sudo takes as permission, minus '
            'the exempt ones, must entail: socket bound, wait and accept ok, prompt written to the accepted stream before '
            'the read, the read delivered a byte, and that byte is y or Y.'),
    'C02': (rs.c02, 'Over all histories of open: permission without a connection entails the six-condition exemption '
            'formula (inputs as data, truth table over its atoms); any history with socket effects or a refusal entails '
            'its negation.'),
    'C03': (rs.c03, 'Over all histories of open under not-exempt, uid change and presence of the runas_group setting: no '
            'permission, and no event that shows a prompt, changes the umask or touches the file system.'),
    'C04': (rs.c04, 'Over all histories of open that reach select or accept: bound under a umask covering 0777, chown then '
            'chmod on the bound path, both entailed successful, with owner, group and mode terms equal to the required ones.'),
    'C05': (rs.c05, 'At the first file-system event of every history of open, the path condition entails that some earlier '
            'look at the parent of the socket path found a directory, owned by the effective uid, without group/other write.'),
    'C06': (rs.c06, 'At every return (and unwinding end) of open: the umask cell equals its initial symbol, and after a '
            'successful bind the path was removed again (or found missing or not a socket by a later look).'),
}
TABLE.update({
    'C07': (rs.c07, 'Every file-system operation in every history of open and of each later callback: its path is the '
            'approval socket\'s, a remove is entailed to follow a look (or own bind) that found a socket, nothing is opened '
            'with create or truncate.'),
    'C08': (rs.c08, 'The path term of every bind equals socket_dir / uid . pid .sock; the script\'s connect address, '
            'evaluated symbolically, is the same shape with the plugin\'s default directory.'),
    'C09': (rs.c09, 'From every state in which a session has a pair, every history of the three output callbacks: a 1 '
            'entails that what was written to that connection is exactly the chunk, each write entailed successful and '
            'complete; plus an analysis of the connection\'s own write.'),
    'C10': (rs.c10, 'From every paired state every history of the stdin callback answers 0; from every exempt state, 1.'),
    'C11': (rs.c11, 'In every history of open each wait occurs once, outside loops, by a non-retrying call, accept only after '
            'an entailed successful select on that listener; at every read and write on the connection the SIGINT '
            'disposition term has SA_RESTART clear and the same handler, and at return equals the initial one.'),
    'C12': (rs.c12, 'Every history of open that accepted a connection and does not end in 1, and every history of close, '
            'contains a shutdown of that connection in both directions; no history that ends in 1 does.'),
})

TABLE.update({
    'C33': (script.c33, 'The approval script is parsed and executed abstractly on every path (arguments: their number and class, '
            'environment, file tests and answers of other programs left open): at each socat and each re-run the path entails '
            'the session\'s uid differs from the approver\'s; a re-run passes the same uid and pid; every path that does not '
            'entail the difference ends in failure; no unchecked text is evaluated.'),
    'C34': (rs.c34, 'From every paired state every history of change_winsize: 1 entails that what was written to that '
            'connection is ESC [8; dec(lines) ; dec(cols) t, completely and successfully; from every exempt state it answers 1 '
            'and writes nothing.'),
    'C39': (rs.c39, 'Every history of open that ends in anything but success: its path is inconsistent with a session that is '
            'not exempt, names a target user or a group but not both, in which every operation attempted succeeded, the '
            'socket directory was fit and the byte read from the pair was y or Y.'),
    'C35': (rs.c35, 'Every write event whose handle contains the accepted stream, in every history of open and of each '
            'callback: before the read only expansions of the pair template, after it only the answer and a newline, in '
            'output callbacks only their own data, in input callbacks and exempt sessions none.'),
})

from . import rules_library as rl
from . import rules_options as ro
TABLE.update({
    'C14': (ro.c14, 'The function that turns an option list into the plugin\'s options, run on an arbitrary map: each of the six '
            'fields equals the documented formula over the map (present and valid and parsed: that value; else the default). '
            'And in every history of open: the bind path, the template paths, %B and the exempt command are made of them.'),
})
TABLE.update({
    'C15': (rl.c15, 'The approval plugin: every history of open ends in 1 or -1, every callback from every state in 1 or 0, and '
            'never 1 after an error report. Every plugin (its methods and error conversions unknown code): a failure is '
            'answered with exactly the status its error converts to, a failed parse and a missing plugin with the denial. '
            'Every library conversion of an error to a status returns Deny on every path.'),
    'C16': (rl.c16, 'Author code may panic at each call: no history of any callback of the plugin descriptors, from the fresh, '
            'opened, refused and closed states, ends by unwinding or aborting; where a panic occurred the answer is the '
            'denial. No build profile sets panic=abort.'),
    'C17': (rl.c17, 'Every history of every descriptor slot with a stored plugin: exactly one author call, of the same event, on '
            'the plugin open stored, with the data term sudo passed, its verdict returned; no call only if the plugin heeds '
            'hints and the path entails that the hint of that very stream is off.'),
    'C18': (rl.c18, 'Every history of open for arbitrary plugins: an author open event entails version >= 1.9, three parsed '
            'lists and a command; their conjunction entails exactly one such event; every other end is a reported refusal or '
            'the version query.'),
    'C19': (rl.c19, 'Histories open; callback; close; callback over arbitrary plugins: which states hold a plugin, the close '
            'call and its arguments, the environment\'s static cell at each author call, and denials in states without a '
            'plugin.'),
})

from . import rules_options as ro
TABLE.update({
    'C20': (ro.c20, 'The conversion of an option list to Settings, run on an arbitrary list: it succeeds iff every required '
            'option is present and parses, the error names the option, and each field\'s term equals the documented key\'s value '
            'parsed as the field\'s type, or the documented default.'),
    'C21': (ro.c21, 'The same for UserInfo.'),
    'C22': (ro.c22, 'The same for CommandInfo.'),
    'C23': (ro.c23, 'The term of the map built from an arbitrary list is one entry per element up to the terminator, in order, '
            'whose key and value terms equal the text before and after the first = (the whole text if there is none).'),
    'C24': (ro.c24, 'Every instance of the option lookup in the program, over an arbitrary map and key: value, missing-option '
            'error or invalid-option error exactly when the option parses, is absent, does not parse; no history panics.'),
    'C25': (ro.c25, 'Membership of an arbitrary gid in the result of runas_gids is equivalent to the documented condition; and '
            'no history of open without a pair is permitted while that set intersects the enforced gids.'),
})

from . import rules_output as rout
TABLE.update({
    'C27': (rout.c27, 'Every history of PrintFacility\'s write on the handles the library makes, for arbitrary text: one call of the '
            'given printf, at the handle\'s level, with the constant format %s and the text as its argument, refused without a '
            'facility or with a NUL, result as documented; every other variadic call site has the same constant format.'),
    'C28': (rout.c28, 'Every history of every callback over arbitrary plugins: exactly one report on the stderr handle per failure, of '
            'the error that occurred, none on success, its outcome in neither status nor path. The report itself: the text '
            'written for chains of 1 to 3 errors, and for any length by one loop round (prints one cause, moves to the next).'),
})

from . import rules_misc as rm
TABLE.update({
    'C29': (rm.c29, 'For each architecture with checked-in bindings: clang\'s debug information for the header on that target '
            'gives every struct\'s size, alignment, field offsets and signatures; the bindings are parsed and laid out by the '
            'repr(C) rules of that target; the two are compared field by field, constant by constant.'),
    'C30': (rm.c30, 'The result terms of the version functions are compared bit by bit with the required provenance; the '
            'value of each empty descriptor, and of each exported one, is computed from its MIR and compared with the header.'),
    'C36': (rm.c36, 'Every history of the example plugin\'s check, fresh, after open, after show_version and after another '
            'check: the result is 0; an entailment shows the error message is stored only if the version is at least 1.17.'),
})
NOTES = {
    'C29': 'Decided completely for the three checked-in binding files against the bundled header: trusts clang\'s layout of '
           'the header per target and the repr(C) layout rules; names are compared, pointee types are not.',
}
TECH = {
    'C33': 'static analysis: abstract path-sensitive execution of the parsed shell script',
    'C29': 'static analysis: structural comparison of the parsed bindings with compiler-computed C layouts and signatures',
    'C30': 'static analysis: bit-provenance dataflow on MIR and constant evaluation of descriptors',
}
from . import rules_prompt as rp
TABLE.update({
    'C26': (rp.c26, 'The result of invocation as a term: exactly the program name, one item per setting under exactly the '
            'condition that it is present, then a space and each argument. Cases of up to two settings and three arguments '
            'are enumerated to exhibit violations.'),
    'C32': (rp.c32, 'expand as a term over symbolic bytes: for every template up to five bytes of classes escape, key, other '
            'key, other, over a table built by with_escape and each replace, the result equals the required concatenation. '
            'For any template and table, induction over its loops: at each head the output is the expansion of the template '
            'before the index, each round appends exactly what the bytes it passes stand for.'),
    'C13': (rp.c13, 'In every history of open each prompt written is expand(spec, template): the template term equals the content '
            'of the file at the configured path or, unreadable, the built-in default; and for each of the 256 bytes the spec '
            'term, expanded over that directive, equals the documented value of the session.'),
    'C31': (rp.c31, 'Every history of open that waits: before the first wait the prompt was entailed written to the opened tty, '
            'or written to stderr; a stderr prompt entails that the tty was absent or failed. With the outcomes of prompting '
            'left open twice, no permitted and no refused history are jointly possible.'),
})

from . import rules_errors as rerr
TABLE.update({
    'C40': (rerr.c40, 'Every refusal in the histories of open and of the callbacks is classified by its path (what was given, how '
            'far it got, what the pair answered); the error it reports is run through the code that shows it, and no text may '
            'belong to two reasons. The library\'s errors: the text of each variant contains each of its fields.'),
})

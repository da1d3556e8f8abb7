//! Every kind of message the codec knows, as wire text.
/// Commands without their tag.
pub const COMMANDS: [&str; 60] = [
    "NOOP", "CAPABILITY", "LOGOUT", "STARTTLS", "CHECK", "CLOSE", "EXPUNGE", "UNSELECT", "COMPRESS DEFLATE", "ID NIL", "ID ()", "ID (\"a\" \"b\" \"c\" NIL)", "ID (\"a\" {3}\r\nx\r\n {1+}\r\nk NIL)",
    "LOGIN u p", "LOGIN \"u u\" \"p\\\"\\\\\"", "LOGIN \"\" {0}\r\n", "LOGIN {4}\r\nab\r\n {0+}\r\n", "LOGIN {2+}\r\n\r\n {3}\r\na {", "LOGIN {6+}\r\n{9}\r\n} x",
    "SELECT INBOX", "SELECT \"INBOX.x y\"", "SELECT {5}\r\nx\r\ny\"", "EXAMINE a/b", "EXAMINE {1+}\r\nb", "CREATE x", "CREATE &AOk-", "DELETE x", "DELETE \"\"", "SUBSCRIBE x.y", "UNSUBSCRIBE x]",
    "RENAME a b", "RENAME INBOX \"c d\"", "RENAME {1}\r\na {1}\r\nb", "RENAME {1+}\r\na {1}\r\nb",
    "APPEND INBOX {3}\r\na\r\n", "APPEND x (\\Seen \\Flagged kw) {2+}\r\nhi", "APPEND {1}\r\nx (\\Draft) {4}\r\n\r\n\r\n", "APPEND x (\\Answered \\Deleted) {0}\r\n",
    "IDLE", "IDLE refused", "AUTHENTICATE PLAIN", "AUTHENTICATE SCRAM-SHA-256 AA==", "AUTHENTICATE X-OTHER refused", "AUTHENTICATE PLAIN =",
    "STATUS INBOX (MESSAGES UIDNEXT)", "STATUS {1}\r\nx (DELETED-STORAGE)", "LIST \"\" *", "LIST {0}\r\n {3}\r\n*\r\n", "LSUB a/ \"% x\"", "SEARCH CHARSET UTF-8 OR SUBJECT {2}\r\n)\n NOT UID 1:*", "UID SEARCH HEADER x {0+}\r\n LARGER 4294967295", "FETCH 1 FULL", "UID FETCH 1:*,7 (FLAGS UID)",
    "STORE 1:2 -FLAGS (kw)", "UID STORE 2 +FLAGS.SILENT (\\Seen)", "UID COPY 1 {1+}\r\nx", "MOVE 3,4 INBOX", "ENABLE CONDSTORE X", "SETQUOTA {1}\r\nr (STORAGE 18446744073709551615 X 0)",
    // longer than a usual buffer
    "AUTHENTICATE X-OTHER QUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJDQUJD",
];
pub const CODES: [&str; 23] = [
    "", "[ALERT] ", "[PARSE] ", "[READ-ONLY] ", "[READ-WRITE] ", "[TRYCREATE] ", "[UIDNEXT 7] ", "[UIDVALIDITY 4294967295] ", "[UNSEEN 3] ", "[PERMANENTFLAGS (\\Seen kw \\*)] ", "[PERMANENTFLAGS ()] ", "[BADCHARSET] ", "[BADCHARSET (UTF-8 X)] ",
    "[OVERQUOTA] ", "[TOOBIG] ", "[UNKNOWN-CTE] ", "[UIDNOTSTICKY] ", "[FOO] ", "[FOO bar {3} (baz] ", "[CAPABILITY IMAP4REV1 IDLE] ", "[CAPABILITY STARTTLS IDLE X] ", "[CAPABILITY STARTTLS] ", "[APPENDUID 1 2] ",
];
pub const TEXTS: [&str; 3] = ["x", "a {3} [ALERT] text] \"quoted", "+ OK"];
pub const DATA: [&str; 38] = [
    "CAPABILITY IMAP4REV1 ID", "CAPABILITY STARTTLS", "LIST () NIL x", "LIST (\\Noselect) \"/\" a/b", "LIST (\\Marked \\HasNoChildren) \"\\\\\" \"a b\"", "LIST () \"\\\"\" {3}\r\na\r\n", "LIST (\\x) \".\" INBOX", "LSUB () NIL \"\"", "LSUB (\\y) \"/\" {1+}\r\nx",
    "SEARCH", "SEARCH 1", "SEARCH 1 2 4294967295", "FLAGS ()", "FLAGS (\\Seen \\Answered \\Flagged \\Deleted \\Draft kw)", "0 EXISTS", "4294967295 EXISTS", "0 RECENT", "7 RECENT", "1 EXPUNGE",
    "1 FETCH (UID 7)", "2 FETCH (RFC822 NIL UID 3)", "3 FETCH (RFC822.SIZE 0 RFC822.HEADER \"a\")", "4 FETCH (RFC822.TEXT {3}\r\na\r\n RFC822 {0}\r\n)", "5 FETCH (RFC822 {3}\r\n* \r)", "6 FETCH (RFC822 {2+}\r\n)) UID 1)", "ENABLED", "ENABLED X Y", "ID NIL", "ID ()", "ID (\"a\" NIL)", "ID (\"name\" \"x\" \"v\" {1}\r\n1)", "LIST () \"x\" {6}\r\n{3}\r\n\"",
    "STATUS x (MESSAGES 0 UIDNEXT 4)", "STATUS {1}\r\nx (DELETED-STORAGE 18446744073709551615)", "SORT 1 2", "QUOTA \"\" (STORAGE 1 2)", "QUOTAROOT INBOX {1}\r\na", "7 FETCH (FLAGS (\\Seen \\Recent kw) UID 4)",
];
/// Every kind of response that answers no command.
pub fn responses() -> Vec<String> {
    let mut v: Vec<String> = DATA.iter().map(|d| format!("* {d}\r\n")).collect();
    for k in ["OK", "NO", "BAD", "BYE"] { for c in CODES { v.push(format!("* {k} {c}x\r\n")) } }
    for k in ["z OK", "zz.9 NO", "a-b BAD"] { for c in CODES { v.push(format!("{k} {c}x\r\n")) } }
    for t in TEXTS { v.push(format!("* OK {t}\r\n")); v.push(format!("q NO [UIDNEXT 1] {t}\r\n")) }
    v.extend(continuations());
    v
}
pub fn continuations() -> Vec<String> {
    let mut v: Vec<String> = CODES.iter().map(|c| format!("+ {c}go ahead\r\n")).collect();
    v.extend(["+ \r\n", "+ AA==\r\n", "+ dGVzdA==\r\n", "+ OK\r\n", "+ idling {3} [ALERT] x\r\n", "+ test\r\n"].map(String::from));
    v
}
pub fn greetings() -> Vec<String> { ["OK", "PREAUTH", "BYE"].iter().flat_map(|k| CODES.iter().map(move |c| format!("* {k} {c}hello there\r\n"))).collect() }
/// Literal announced at the end of this line: size and whether it is synchronizing.
pub fn announced(line: &[u8]) -> Option<(usize, bool)> {
    let l = line.strip_suffix(b"\r\n")?.strip_suffix(b"}")?;
    let open = l.iter().rposition(|c| *c == b'{')?;
    let (d, sync) = match l[open + 1..].strip_suffix(b"+") { Some(d) => (d, false), None => (&l[open + 1..], true) };
    if d.is_empty() || !d.iter().all(u8::is_ascii_digit) { return None }
    Some((std::str::from_utf8(d).ok()?.parse().ok()?, sync))
}
/// Number of synchronizing literals of a command.
pub fn literals(cmd: &str) -> usize {
    let (b, mut i, mut n) = (cmd.as_bytes(), 0, 0);
    while i < b.len() {
        let e = i + b[i..].iter().position(|c| *c == b'\n').unwrap() + 1;
        match announced(&b[i..e]) { Some((l, sync)) => { n += sync as usize; i = e + l } None => i = e }
    }
    n
}

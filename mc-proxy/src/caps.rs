//! The proxy's allow-list, stated independently of its code, and the expected effect on a message.

/// Capabilities a client may see (upper case).
pub fn allowed(c: &str) -> bool {
    let c = c.to_ascii_uppercase();
    matches!(c.as_str(), "IMAP4REV1" | "AUTH=PLAIN" | "AUTH=LOGIN" | "AUTH=XOAUTH2" | "AUTH=SCRAM-SHA-1" | "AUTH=SCRAM-SHA-256" | "SASL-IR" | "QUOTA" | "QUOTASET" | "MOVE" | "LITERAL+" | "LITERAL-" | "UNSELECT" | "ID" | "IDLE")
        || c.strip_prefix("QUOTA=RES-").is_some_and(|r| !r.is_empty())
}
pub fn filter(list: &str) -> String {
    let v: Vec<&str> = list.split(' ').filter(|c| allowed(c)).collect();
    if v.is_empty() { "IMAP4REV1".into() } else { v.join(" ") }
}
/// What the client has to see of a server message.
pub fn expected(msg: &str) -> String {
    if let Some(l) = msg.strip_prefix("* CAPABILITY ") { return format!("* CAPABILITY {}\r\n", filter(l.trim_end())); }
    // A code can only be at the start of the text.
    let at = match msg.find("[CAPABILITY ") { Some(a) => a, None => return msg.into() };
    let head = &msg[..at];
    let words: Vec<&str> = head.split_ascii_whitespace().collect();
    let is_code = match words.as_slice() { ["+"] => true, [_, k] => matches!(*k, "OK" | "NO" | "BAD" | "PREAUTH" | "BYE"), _ => false };
    let Some(end) = msg[at..].find(']') else { return msg.into() };
    if !is_code { return msg.into() }
    format!("{head}[CAPABILITY {}{}", filter(&msg[at + 12..at + end]), &msg[at + end..])
}

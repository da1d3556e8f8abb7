//! Exhaustive enumeration of proxy configurations against an independent decision table.
#[allow(dead_code)]
#[path = "/repo/proxy/src/config.rs"]
mod config;

use config::{Bind, Config, Connect, Identity, Service};
use mc_engine::{viol, Ch, Out, Scenario};
use std::cell::RefCell;
use std::path::PathBuf;
use std::sync::OnceLock;

// ------------------------------------------------------------------ the abstract configuration
const NAMES: &[Option<&str>] = &[Some("\"Best Email Provider\""), None, Some("\"\""), Some("\"q\\\"uo\\\\te\\n\u{e9}\""), Some("5"), Some("'plain'"), Some("\"  padded\\t \""), Some("'$HOME ~ %41 ${x}'"), Some("\"# [services] \\u0000\\u00e9e\\u0301\""), Some("true"), Some("[\"x\"]")];
const NAME_VAL: &[Option<&str>] = &[Some("Best Email Provider"), None, Some(""), Some("q\"uo\\te\n\u{e9}"), None, Some("plain"), Some("  padded\t "), Some("$HOME ~ %41 ${x}"), Some("# [services] \0\u{e9}e\u{301}"), None, None];
const ENC: &[Option<&str>] = &[Some("\"Insecure\""), Some("\"Tls\""), None, Some("\"insecure\""), Some("\"TLS\""), Some("\"StartTls\""), Some("\"\""), Some("true"), Some("\"tls\""), Some("\"None\"")];
const HOST: &[Option<&str>] = &[Some("\"127.0.0.1\""), Some("\"localhost\""), Some("\"[::1]\""), Some("\"mail.example.org\""), None, Some("5"), Some("\"\""), Some("\" Mail.EXAMPLE.org.\""), Some("'$HOST:~'"), Some("\"[::]\\n\""), Some("\"::1\""), Some("\"h:99\""), Some("\"imaps://x/\""), Some("\"B\u{fc}cher\""), Some("[\"h\"]")];
const HOST_VAL: &[Option<&str>] = &[Some("127.0.0.1"), Some("localhost"), Some("[::1]"), Some("mail.example.org"), None, None, Some(""), Some(" Mail.EXAMPLE.org."), Some("$HOST:~"), Some("[::]\n"), Some("::1"), Some("h:99"), Some("imaps://x/"), Some("B\u{fc}cher"), None];
const PORT: &[Option<&str>] = &[None, Some("1143"), Some("143"), Some("993"), Some("1"), Some("65535"), Some("0"), Some("65536"), Some("-1"), Some("\"143\""), Some("1.5"), Some("131215"), Some("4294967439"), Some("true")];
/// None: refused
const PORT_VAL: &[Option<Option<u16>>] = &[Some(None), Some(Some(1143)), Some(Some(143)), Some(Some(993)), Some(Some(1)), Some(Some(65535)), Some(Some(0)), None, None, None, None, None, None, None];
const IDENT: &[Option<&str>] = &[
    Some("{ type = \"CertificateChainAndLeafKey\", certificate_chain_path = \"chain.pem\", leaf_key_path = \"key.pem\" }"),
    Some("{ leaf_key_path = \"/k \u{fc}.pem\", certificate_chain_path = \"/c.pem\", type = \"CertificateChainAndLeafKey\" }"),
    None,
    Some("{ type = \"CertificateChainAndLeafKey\", certificate_chain_path = \"chain.pem\" }"),
    Some("{ type = \"CertificateChainAndLeafKey\", leaf_key_path = \"key.pem\" }"),
    Some("{ certificate_chain_path = \"chain.pem\", leaf_key_path = \"key.pem\" }"),
    Some("{ type = \"Pkcs12\", certificate_chain_path = \"chain.pem\", leaf_key_path = \"key.pem\" }"),
    Some("\"chain.pem\""),
    Some("{ }"),
    Some("{ type = \"CertificateChainAndLeafKey\", certificate_chain_path = \"~/a/../b//$X \", leaf_key_path = \" ./one.pem\\n\" }"),
    Some("{ type = \"CertificateChainAndLeafKey\", certificate_chain_path = \"one.pem\", leaf_key_path = \"one.pem\" }"),
    Some("{ type = \"CertificateChainAndLeafKey\", certificate_chain_path = \"\", leaf_key_path = \"\" }"),
    Some("{ type = \"CertificateChainAndLeafKey\", certificate_chain_path = 5, leaf_key_path = \"key.pem\" }"),
];
const IDENT_VAL: &[Option<(&str, &str)>] = &[Some(("chain.pem", "key.pem")), Some(("/c.pem", "/k \u{fc}.pem")), None, None, None, None, None, None, None, Some(("~/a/../b//$X ", " ./one.pem\n")), Some(("one.pem", "one.pem")), Some(("", "")), None];

/// Indices into the tables above. `syntax`: 0 inline, 1 tables, 2 dotted keys; `rot`: key order.
#[derive(Clone, Debug, Default)]
struct Svc { name: usize, be: usize, bh: usize, bp: usize, bi: usize, ce: usize, ch: usize, cp: usize, syntax: usize, rot: usize, no_bind: bool, no_connect: bool }

fn keys(pairs: Vec<(&'static str, Option<&'static str>)>, rot: usize) -> Vec<(&'static str, &'static str)> {
    let mut v: Vec<_> = pairs.into_iter().filter_map(|(k, x)| x.map(|x| (k, x))).collect();
    if !v.is_empty() { let n = v.len(); v.rotate_left(rot % n); }
    if rot >= 8 { v.reverse(); }
    v
}
fn render(s: &Svc) -> String {
    let b = keys(vec![("encryption", ENC[s.be]), ("host", HOST[s.bh]), ("port", PORT[s.bp]), ("identity", IDENT[s.bi])], s.rot);
    let c = keys(vec![("encryption", ENC[s.ce]), ("host", HOST[s.ch]), ("port", PORT[s.cp])], s.rot);
    let mut o = String::from("[[services]]\n");
    if let Some(n) = NAMES[s.name] { o.push_str(&format!("name = {n}\n")); }
    let join = |v: &[(&str, &str)], sep: &str| v.iter().map(|(k, x)| format!("{k} = {x}")).collect::<Vec<_>>().join(sep);
    match s.syntax {
        0 => {
            if !s.no_bind { o.push_str(&format!("bind = {{ {} }}\n", join(&b, ", "))); }
            if !s.no_connect { o.push_str(&format!("connect = {{ {} }}\n", join(&c, ", "))); }
        }
        1 => {
            if !s.no_connect { o.push_str(&format!("[services.connect]\n{}\n", join(&c, "\n"))); }
            if !s.no_bind { o.push_str(&format!("[services.bind] # a comment\n{}\n", join(&b, "\n"))); }
        }
        _ => {
            if !s.no_bind { for (k, x) in &b { o.push_str(&format!("bind.{k} = {x}\n")); } }
            if !s.no_connect { for (k, x) in &c { o.push_str(&format!("connect.{k} = {x}\n")); } }
        }
    }
    o
}
/// What the configuration means; None: must be refused.
fn meaning(s: &Svc) -> Option<Service> {
    if s.no_bind || s.no_connect { return None; }
    let name = NAME_VAL[s.name]?.to_string();
    let bind = match ENC[s.be]? {
        "\"Insecure\"" => Bind::Insecure { host: HOST_VAL[s.bh]?.into(), port: PORT_VAL[s.bp]?.unwrap_or(143) },
        "\"Tls\"" => { let (c, k) = IDENT_VAL[s.bi]?; Bind::Tls { host: HOST_VAL[s.bh]?.into(), port: PORT_VAL[s.bp]?.unwrap_or(993), identity: Identity::CertificateChainAndLeafKey { certificate_chain_path: c.into(), leaf_key_path: k.into() } } }
        _ => return None,
    };
    let connect = match ENC[s.ce]? {
        "\"Insecure\"" => Connect::Insecure { host: HOST_VAL[s.ch]?.into(), port: PORT_VAL[s.cp]?.unwrap_or(143) },
        "\"Tls\"" => Connect::Tls { host: HOST_VAL[s.ch]?.into(), port: PORT_VAL[s.cp]?.unwrap_or(993) },
        _ => return None,
    };
    Some(Service { name, bind, connect })
}
/// An insecure binding that also names an identity: refusing it would be as good as ignoring it.
fn lenient(s: &Svc) -> bool { ENC[s.be] == Some("\"Insecure\"") && IDENT[s.bi].is_some() }

// ------------------------------------------------------------------ running the real loader
static DIR: OnceLock<PathBuf> = OnceLock::new();
fn dir() -> &'static PathBuf { DIR.get_or_init(|| { let d = std::env::temp_dir().join(format!("mc-config-{}", std::process::id())); std::fs::create_dir_all(&d).unwrap(); d }) }
fn load(text: &[u8]) -> Result<Config, config::Error> {
    thread_local!(static F: RefCell<Option<PathBuf>> = const { RefCell::new(None) });
    F.with(|f| {
        let mut f = f.borrow_mut();
        let p = f.get_or_insert_with(|| dir().join(format!("{:?}.toml", std::thread::current().id())));
        std::fs::write(&*p, text).unwrap();
        Config::load(&*p)
    })
}
/// All that a configuration says, field by field (whatever the type's own comparison does).
type Said = Vec<(String, (bool, String, u16, Option<(String, String)>), (bool, String, u16))>;
fn said(c: &Config) -> Said {
    c.services.iter().map(|s| (
        s.name.clone(),
        match &s.bind {
            Bind::Insecure { host, port, .. } => (false, host.clone(), *port, None),
            Bind::Tls { host, port, identity: Identity::CertificateChainAndLeafKey { certificate_chain_path, leaf_key_path, .. }, .. } => (true, host.clone(), *port, Some((certificate_chain_path.to_string(), leaf_key_path.to_string()))),
        },
        match &s.connect { Connect::Insecure { host, port, .. } => (false, host.clone(), *port), Connect::Tls { host, port, .. } => (true, host.clone(), *port) },
    )).collect()
}
fn same(a: &Config, b: &Config) -> bool { said(a) == said(b) && said(&a.clone()) == said(b) }
fn expect(ch: &mut Ch, text: &str, want: Option<Config>, lenient: bool) -> Out {
    let got = load(text.as_bytes());
    ch.step(mc_engine::fp(&text.to_string()));
    ch.log(|| format!("{text:?} -> {}", match &got { Ok(c) => format!("{} services", c.services.len()), Err(_) => "refused".into() }));
    match (got, want) {
        (Ok(g), Some(w)) if same(&g, &w) => Ok(()),
        (Err(_), None) => Ok(()),
        (Err(_), Some(_)) if lenient => Ok(()),
        (Ok(g), Some(w)) => viol!(["P07"], "misread", "the configuration\n{text}\nwas read as {g:?} instead of {w:?}"),
        (Ok(g), None) => viol!(["P07"], "accepted", "the invalid configuration\n{text}\nwas accepted as {g:?}"),
        (Err(e), Some(_)) => viol!(["P07"], "refused", "the valid configuration\n{text}\nwas refused: {e}"),
    }
}
fn one(ch: &mut Ch, s: &Svc) -> Out { expect(ch, &render(s), meaning(s).map(|s| Config { services: vec![s] }), lenient(s)) }

fn p07(thorough: bool) -> Vec<Scenario> {
    let mut v = vec![];
    v.push(Scenario::new("every-bind", move |ch| {
        let s = Svc { be: ch.choose(ENC.len()), bh: ch.choose(HOST.len()), bp: ch.choose(PORT.len()), bi: ch.choose(IDENT.len()), syntax: ch.choose(if thorough { 3 } else { 1 }), rot: if thorough { ch.choose(12) } else { 0 }, ..Default::default() };
        one(ch, &s)
    }));
    v.push(Scenario::new("every-connect", move |ch| {
        let s = Svc { ce: ch.choose(ENC.len()), ch: ch.choose(HOST.len()), cp: ch.choose(PORT.len()), be: ch.choose(2), bp: ch.choose(2), name: ch.choose(NAMES.len()), syntax: ch.choose(if thorough { 3 } else { 1 }), rot: if thorough { ch.choose(12) } else { 0 }, ..Default::default() };
        one(ch, &s)
    }));
    v.push(Scenario::new("bind-times-connect", |ch| {
        let s = Svc { be: ch.choose(4), bh: ch.choose(2), bp: ch.choose(8), bi: ch.choose(3), ce: ch.choose(4), ch: ch.choose(2), cp: ch.choose(8), ..Default::default() };
        one(ch, &s)
    }));
    v.push(Scenario::new("syntax-and-key-order", |ch| {
        let s = Svc { be: ch.choose(3), bp: ch.choose(2), bh: 4 * ch.choose(2), bi: ch.choose(3), ce: ch.choose(3), cp: ch.choose(2), ch: 4 * ch.choose(2), syntax: ch.choose(3), rot: ch.choose(12), ..Default::default() };
        one(ch, &s)
    }));
    v.push(Scenario::new("missing-tables", |ch| {
        let s = Svc { no_bind: ch.choose(2) == 1, no_connect: ch.choose(2) == 1, be: ch.choose(2), ce: ch.choose(2), name: ch.choose(NAMES.len()), syntax: ch.choose(3), ..Default::default() };
        one(ch, &s)
    }));
    v.push(Scenario::new("several-services", move |ch| {
        let kinds: Vec<Svc> = vec![
            Svc::default(),
            Svc { be: 1, bp: 1, ..Default::default() },
            Svc { ce: 1, cp: 0, ch: 1, ..Default::default() },
            Svc { be: 1, ce: 1, bi: 1, bh: 3, ch: 3, name: 2, syntax: 1, ..Default::default() },
            Svc { bp: 6, cp: 5, syntax: 2, name: 3, ..Default::default() },
            Svc { be: 1, bi: 2, ..Default::default() },  // invalid
            Svc { ce: 2, ..Default::default() },         // invalid
            Svc { bp: 7, ..Default::default() },         // invalid
        ];
        let n = ch.choose(if thorough { 6 } else { 5 });
        let (mut text, mut want) = (String::new(), Some(vec![]));
        let mut len = false;
        for _ in 0..n {
            let s = &kinds[ch.choose(kinds.len())];
            text.push_str(&render(s)); text.push('\n');
            len |= lenient(s);
            match (meaning(s), &mut want) { (Some(m), Some(w)) => w.push(m), _ => want = None }
        }
        if n == 0 { text = "services = []\n".into(); }
        expect(ch, &text, want.map(|services| Config { services }), len)
    }));
    v.push(Scenario::new("many-services", |ch| {
        let n = [9, 64, 300, 1100][ch.choose(4)];
        let ss: Vec<Svc> = (0..n).map(|i| Svc { be: i % 2, ce: i / 2 % 2, bp: i % 7, cp: i % 5, name: [0, 2, 3, 5][i % 4], syntax: i % 3, ..Default::default() }).collect();
        expect(ch, &ss.iter().map(render).collect::<Vec<_>>().join("\n"), Some(Config { services: ss.iter().map(|s| meaning(s).unwrap()).collect() }), false)
    }));
    v.push(Scenario::new("layouts", |ch| {
        // the same services, laid out differently
        let ss: Vec<Svc> = (0..3).map(|i| Svc { be: i % 2, ce: (i + 1) % 2, bp: 0, cp: i, name: [0, 3, 6][i], syntax: ch.choose(3), rot: 5 * i, ..Default::default() }).collect();
        let mut t: String = ss.iter().map(render).collect::<Vec<_>>().join("\n");
        match ch.choose(6) {
            0 => t = t.replace('\n', "\r\n"),
            1 => t = format!("# first\n\n\n{t}\n\n# last \u{e9}"),
            2 => t = t.lines().map(|l| format!("  \t{l}  # \"x\" = {{}}\n")).collect(),
            3 => t = t.trim_end().to_string(),
            4 => t = format!("{t}\n# {}", "x".repeat(200_000)),
            _ => {}
        }
        expect(ch, &t, Some(Config { services: ss.iter().map(|s| meaning(s).unwrap()).collect() }), false)
    }));
    v.push(Scenario::new("cut-short", |ch| {
        // A file that ends too early says less than it should, wherever the cut is.
        let s = Svc { be: ch.choose(2), ce: ch.choose(2), name: 3 * ch.choose(2), bp: ch.choose(2), cp: ch.choose(2), ..Default::default() };
        let t = render(&s);
        let t = t.trim_end().as_bytes();
        let n = ch.choose_big(t.len());
        ch.step(mc_engine::fp(&t[..n].to_vec()));
        match load(&t[..n]) { Err(_) => Ok(()), Ok(g) => viol!(["P07"], "accepted", "the first {n} bytes of the configuration\n{}\nwere accepted as {g:?}", String::from_utf8_lossy(t)) }
    }));
    v.push(Scenario::new("line-twice", |ch| {
        let s = Svc { be: ch.choose(2), ce: ch.choose(2), bp: ch.choose(2), cp: ch.choose(2), syntax: ch.choose(3), ..Default::default() };
        let t = render(&s);
        let lines: Vec<&str> = t.lines().collect();
        let k = ch.choose(lines.len());
        let t: String = lines.iter().enumerate().flat_map(|(i, l)| vec![format!("{l}\n"); 1 + (i == k) as usize]).collect();
        expect(ch, &t, None, false)
    }));
    v.push(Scenario::new("large-values", |ch| {
        let n = [63, 64, 65, 127, 128, 253, 254, 255, 256, 300, 1023, 1024, 1025, 4095, 4096, 4097, 65_535, 65_536, 65_537, 1 << 20][ch.choose(20)];
        let shape = ch.choose(4);
        let x: String = (0..n).map(|i| match (shape, i) { (1, i) if i % 20 == 19 || i + 1 == n => '.', (2, i) if i + 1 == n => ' ', (3, i) if i % 7 == 6 => ['/', '-', ' ', ':', '%', '\u{e9}'][i % 6], _ => (b'a' + (i % 26) as u8) as char }).collect();
        let mut f: Vec<String> = ["n", "h", "c.pem", "k.pem", "i"].map(String::from).to_vec();
        f[ch.choose(5)] = x;
        let tls = ch.choose(2) == 1;
        let want = Config { services: vec![Service {
            name: f[0].clone(),
            bind: if tls { Bind::Tls { host: f[1].clone(), port: 993, identity: Identity::CertificateChainAndLeafKey { certificate_chain_path: f[2].clone(), leaf_key_path: f[3].clone() } } } else { Bind::Insecure { host: f[1].clone(), port: 143 } },
            connect: if tls { Connect::Tls { host: f[4].clone(), port: 993 } } else { Connect::Insecure { host: f[4].clone(), port: 143 } },
        }] };
        let (e, id) = if tls { ("Tls", format!(", identity = {{ type = 'CertificateChainAndLeafKey', certificate_chain_path = '{}', leaf_key_path = '{}' }}", f[2], f[3])) } else { ("Insecure", String::new()) };
        expect(ch, &format!("[[services]]\nname = '{}'\nbind = {{ encryption = '{e}', host = '{}'{id} }}\nconnect = {{ encryption = '{e}', host = '{}' }}\n", f[0], f[1], f[4]), Some(want), false)
    }));
    v.push(Scenario::new("any-value", |ch| {
        let t = texts();
        let x = &t[ch.choose_big(t.len())];
        let mut f: Vec<String> = ["n", "h", "c.pem", "k.pem", "i"].map(String::from).to_vec();
        f[ch.choose(5)] = x.clone();
        let tls = ch.choose(2) == 1;
        let want = Config { services: vec![Service {
            name: f[0].clone(),
            bind: if tls { Bind::Tls { host: f[1].clone(), port: 993, identity: Identity::CertificateChainAndLeafKey { certificate_chain_path: f[2].clone(), leaf_key_path: f[3].clone() } } } else { Bind::Insecure { host: f[1].clone(), port: 143 } },
            connect: if tls { Connect::Tls { host: f[4].clone(), port: 993 } } else { Connect::Insecure { host: f[4].clone(), port: 143 } },
        }] };
        let q: Vec<String> = f.iter().map(|x| quoted(x)).collect();
        let (e, id) = if tls { ("Tls", format!(", identity = {{ type = 'CertificateChainAndLeafKey', certificate_chain_path = {}, leaf_key_path = {} }}", q[2], q[3])) } else { ("Insecure", String::new()) };
        expect(ch, &format!("[[services]]\nname = {}\nbind = {{ encryption = '{e}', host = {}{id} }}\nconnect = {{ encryption = '{e}', host = {} }}\n", q[0], q[1], q[4]), Some(want), false)
    }));
    v.push(Scenario::new("any-encryption-word", |ch| {
        // Nothing but the two words is an encryption.
        let mut t = texts();
        for w in ["Insecure", "Tls", "CertificateChainAndLeafKey"] {
            t.extend([w.to_uppercase(), w.to_lowercase(), format!(" {w}"), format!("{w} "), format!("{w}\0"), format!("{w}{w}"), w.chars().rev().collect()]);
            for i in 0..w.len() { t.push(w[..i].into()); t.push(w[i + 1..].into()); t.push(format!("{}{}", &w[..i], &w[i + 1..])); let mut u = w.as_bytes().to_vec(); u[i] ^= 0x20; t.push(String::from_utf8(u).unwrap()) }
        }
        t.extend(["SSL", "Ssl", "STARTTLS", "StartTls", "TLS1.2", "Tlsv1_3", "Plain", "Cleartext", "Unencrypted", "Secure", "Off", "No", "None", "false", "true", "0", "1", "Auto", "Opportunistic", "Default", "Bind", "Connect", "Identity", "ChainAndKey", "Pkcs12"].map(String::from));
        t.retain(|w| w != "Insecure" && w != "Tls");
        let x = quoted(&t[ch.choose_big(t.len())]);
        let (mut b, mut i, mut c) = ("'Tls'", "'CertificateChainAndLeafKey'", "'Tls'");
        match ch.choose(3) { 0 => b = &x, 1 => i = &x, _ => c = &x }
        expect(ch, &format!("[[services]]\nname = 'n'\nbind = {{ encryption = {b}, host = 'h', identity = {{ type = {i}, certificate_chain_path = 'c', leaf_key_path = 'k' }} }}\nconnect = {{ encryption = {c}, host = 'i' }}\n"), None, false)
    }));
    v.push(Scenario::new("any-port", |ch| {
        let block = ch.choose(160) as i64 - 16;
        let form = ch.choose(6);
        for p in block * 1024..(block + 1) * 1024 {
            if form > 0 && p % 37 != 0 && p > 1100 || p < 0 && form > 1 { continue }
            let t = match form { 0 => format!("{p}"), 1 => format!("{p:+}"), 2 => format!("0x{p:x}"), 3 => format!("0o{p:05o}"), 4 => format!("0b{p:b}"), _ if p >= 10 => format!("{}_{}", p / 10, p % 10), _ => continue };
            let want = u16::try_from(p).ok().map(|p| Config { services: vec![Service { name: "n".into(), bind: Bind::Insecure { host: "h".into(), port: p }, connect: Connect::Tls { host: "i".into(), port: p } }] });
            if want.is_none() && p % 61 != 0 && (p < -20 || p > 65_600) { continue }
            expect(ch, &format!("[[services]]\nname = 'n'\nbind = {{ encryption = 'Insecure', host = 'h', port = {t} }}\nconnect = {{ encryption = 'Tls', host = 'i', port = {t} }}\n"), want, false)?;
        }
        Ok(())
    }));
    v.push(Scenario::new("any-way-to-name-the-file", |ch| {
        use std::os::unix::{ffi::OsStrExt, fs::symlink};
        static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let d = dir().join(format!("ways-{}", N.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
        std::fs::create_dir_all(d.join("sub")).unwrap();
        let svc = Svc { be: ch.choose(2), ce: ch.choose(2), name: 3, ..Default::default() };
        let text = render(&svc);
        let file = d.join("real.toml");
        std::fs::write(&file, &text).unwrap();
        let way = ch.choose(22);
        let name = |b: &[u8]| { let p = d.join(std::ffi::OsStr::from_bytes(b)); std::fs::write(&p, &text).unwrap(); p };
        let mut writer = None;
        let (p, good) = match way {
            0 => (file.clone(), true),
            1 => { symlink("real.toml", d.join("rel")).unwrap(); (d.join("rel"), true) }
            2 => { symlink(&file, d.join("sub/abs.toml")).unwrap(); symlink("sub/abs.toml", d.join("chain")).unwrap(); (d.join("chain"), true) }
            3 => { symlink(&d, d.join("sub/loopdir")).unwrap(); (d.join("sub/loopdir/real.toml"), true) }
            4 => (d.join("sub/../real.toml"), true),
            5 => (d.join(".//sub/./.././/real.toml"), true),
            6 => (name(b"no extension"), true),
            7 => (name(b".hidden"), true),
            8 => (name(b"config.json"), true),
            9 => (name("k\u{f6}nfig \u{2713}.TOML".as_bytes()), true),
            10 => (name(b"not utf8 \xff\xfe.toml"), true),
            11 => (name(b"~"), true),
            12 => (name(b"$HOME %41 ${x} *?[a]"), true),
            13 => (name(&[b'n'; 255]), true),
            14 => { std::fs::hard_link(&file, d.join("hard.toml")).unwrap(); (d.join("hard.toml"), true) }
            15 => { use std::os::unix::fs::PermissionsExt; std::fs::set_permissions(&file, std::fs::Permissions::from_mode(0o400)).unwrap(); (file.clone(), true) }
            16 | 17 => {
                // like the shell's <(...)
                let p = d.join("pipe");
                let c = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap();
                extern "C" { fn mkfifo(p: *const std::ffi::c_char, mode: u32) -> i32; }
                if unsafe { mkfifo(c.as_ptr(), 0o600) } != 0 { return Ok(()) }
                let (q, t, slow) = (p.clone(), text.clone(), way == 17);
                writer = Some(std::thread::spawn(move || {
                    use std::io::Write;
                    let Ok(mut f) = std::fs::OpenOptions::new().write(true).open(q) else { return };
                    for c in t.as_bytes().chunks(if slow { 10 } else { 1 << 20 }) { if f.write_all(c).is_err() { return } if slow { std::thread::yield_now() } }
                }));
                (p, true)
            }
            18 => { symlink("nothing", d.join("dangling")).unwrap(); (d.join("dangling"), false) }
            19 => { symlink("loop", d.join("loop")).unwrap(); (d.join("loop"), false) }
            20 => (file.join("below"), false),
            _ => (d.join("sub"), false),
        };
        ch.step(way as u64);
        let got = match ch.choose(3) { 0 => Config::load(&p), 1 => Config::load(p.clone()), _ => Config::load(p.as_os_str()) };
        if let Some(w) = writer {
            // whoever never opened the pipe must not keep the writer waiting
            use std::os::unix::fs::OpenOptionsExt;
            let _reader = std::fs::OpenOptions::new().read(true).custom_flags(0o4000).open(&p);
            w.join().unwrap();
        }
        let _ = std::fs::remove_dir_all(&d);
        match (got, good) {
            (Ok(g), true) if same(&g, &Config { services: vec![meaning(&svc).unwrap()] }) => Ok(()),
            (Err(_), false) => Ok(()),
            (Ok(g), _) => viol!(["P07"], "misread", "the file {p:?} with\n{text}\nwas read as {g:?}"),
            (Err(e), _) => viol!(["P07"], "refused", "the readable file {p:?} was refused: {e}"),
        }
    }));
    v.push(Scenario::new("broken-files", |ch| {
        const T: &[&[u8]] = &[b"", b"services", b"[[services]]", b"[services]\nname = 'x'\n", b"services = 5", b"services = [5]", b"[[service]]\nname='x'\nbind={encryption='Insecure',host='h'}\nconnect={encryption='Insecure',host='h'}\n",
            b"[[services]]\nname='x'\nbind={encryption='Insecure',host='h'\nconnect={encryption='Insecure',host='h'}\n", b"[[services]]\nname='x'\nname='y'\nbind={encryption='Insecure',host='h'}\nconnect={encryption='Insecure',host='h'}\n",
            b"[[services]]\nname='x'\nbind={encryption='Insecure',host='h',host='i'}\nconnect={encryption='Insecure',host='h'}\n", b"\xff\xfe[[services]]", b"{\"services\":[]}", b"\0", b"services = []\n garbage",
            b"# \xff\n[[services]]\nname='x'\nbind={encryption='Insecure',host='h'}\nconnect={encryption='Insecure',host='h'}\n", b"[[services]]\nname='x\xe9'\nbind={encryption='Insecure',host='h'}\nconnect={encryption='Insecure',host='h'}\n",
            b"[[services]]\nname='x'\nbind='imap://h'\nconnect={encryption='Insecure',host='h'}\n", b"[[services]]\nname='x'\nbind={encryption='Insecure',host='h'}\nconnect=[]\n"];
        // a valid file followed by something that is none
        const TAIL: &[&[u8]] = &[b"\0", b"\x1a", b"\x1a\r\n", b"\xff", b"}", b"]", b"x", b"=", b"\"", b"name = 'again'\n", b"[services]\n", b"[[services]]\n", b"\x7f", b"\x0c", b"\xe2\x80\x8b", b"\xc2\xa0"];
        let c = ch.choose(T.len() + 3 + TAIL.len());
        ch.step(c as u64);
        let r = if c < T.len() { load(T[c]) } else if c >= T.len() + 3 {
            let mut t = render(&Svc::default()).into_bytes();
            t.extend_from_slice(TAIL[c - T.len() - 3]);
            load(&t)
        } else {
            match c - T.len() { 0 => Config::load(dir().join("does-not-exist.toml")), 1 => Config::load(dir()), _ => Config::load("") }
        };
        match r { Err(_) => Ok(()), Ok(g) => viol!(["P07"], "accepted", "broken configuration file number {c} ({}) was accepted as {g:?}", T.get(c).map(|t| mc_engine::esc(t)).unwrap_or_default()) }
    }));
    v
}

// ------------------------------------------------------------------ printing and round trip
/// What can be written where a name, a host or a path is expected.
fn texts() -> Vec<String> {
    let mut v: Vec<String> = (0..0x180u32).chain([0x2013, 0x2028, 0x2713, 0xfeff, 0xfffd, 0x1f600]).filter_map(char::from_u32).flat_map(|c| [format!("{c}"), format!("{c}x"), format!("x{c}"), format!("x{c}y{c}{c}z")]).collect();
    v.extend(["127.1", "0x7f.1", "010.0.0.1", "0127.0.0.1", "127.000.000.001", "2130706433", "::", "::ffff:127.0.0.1", "0:0:0:0:0:0:0:1", "[0::1]", "[fe80::1%25eth0]", "fe80::1%lo", "FE80::A", "mail.example.org.", "mail..org", ".mail.org", "xn--mnchen-3ya.de", "m\u{fc}nchen.de", "mu\u{308}nchen.de", "EXAMPLE", "a_b", "-a", "h:1", "h:", ":1", "[h]:1", "h/path", "user@h", "user:pw@h", "imap://h", "imaps://h:993/", "tcp://h", "unix:/run/x", "/run/x.sock", "@abstract",
        "./x.pem", "../x.pem", "./../x", "~/x.pem", "~root/x", "~", "C:\\x.pem", "\\\\srv\\x", "file:///x.pem", "//x", "x//y", "x/", "/", ".", "..", "$HOME/x", "${HOME}", "$(id)", "`id`", "%HOME%", "%d", "%00", "{host}", "{{host}}", "{0}", "x.pem#1", "x.pem?y", "x;y", "x,y", "x y", "x  y", " x", "x ", "\tx", "x\n", "x\r\n", "\\n", "\\", "\"", "'", "'''", "\"\"\"", "# x", "[x]", "x = y", "null", "NULL", "nil", "None", "none", "true", "false", "0", "1", "-1", "nan", "inf", "1979-05-27", "default", "Default", "localhost", "LOCALHOST", "localhost.", "any", "all", "*", "0.0.0.0", "255.255.255.255", "test", "example.com", "Insecure", "Tls", "services"].map(String::from));
    v
}
/// As a TOML basic string.
fn quoted(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' | '\\' => { o.push('\\'); o.push(c) } c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } } o.push('"'); o }
const HOSTS: &[&str] = &["127.0.0.1", "localhost", "[::1]", "::1", "mail.example.org", "", "h\u{f6}st", "a b", "imap://x", "x:1", "TLS", "insecure", " Mail.EXAMPLE.org.", "\tx\n", "[::]", "fe80::1%eth0", "0.0.0.0", "*", "%s{host}", "imaps://x/"];
const PATHS: &[(&str, &str)] = &[("chain.pem", "key.pem"), ("", ""), ("/a b/\"c\"\\d.pem", "k\n\u{e9}'.pem"), ("key.pem", "chain.pem")];
fn bind(tls: bool, h: usize, port: u16, i: usize) -> Bind {
    let host = HOSTS[h].to_string();
    if tls { Bind::Tls { host, port, identity: Identity::CertificateChainAndLeafKey { certificate_chain_path: PATHS[i].0.into(), leaf_key_path: PATHS[i].1.into() } } } else { Bind::Insecure { host, port } }
}
fn connect(tls: bool, h: usize, port: u16) -> Connect { let host = HOSTS[h].to_string(); if tls { Connect::Tls { host, port } } else { Connect::Insecure { host, port } } }
fn shown(tls: bool, host: &str, port: u16, addr: String, shown: String, what: &str) -> Out {
    let want = format!("{host}:{port}");
    if addr != want { return viol!(["P10"], "address", "{what} for host {host:?} port {port}: address is {addr:?}"); }
    let scheme = if tls { "imaps://" } else { "imap://" };
    let Some(rest) = shown.strip_prefix(&format!("{scheme}{want}")) else { return viol!(["P10"], "display", "{what} (TLS: {tls}) for host {host:?} port {port} is shown as {shown:?}") };
    let (t, i) = (rest.contains("TLS"), rest.to_lowercase().contains("insecure"));
    if t != tls || i == tls || rest.starts_with(|c: char| c.is_ascii_digit()) { return viol!(["P10"], "display", "{what} (TLS: {tls}) for host {host:?} port {port} is shown as {shown:?}"); }
    Ok(())
}
fn p10(thorough: bool) -> Vec<Scenario> {
    let mut v = vec![];
    v.push(Scenario::new("long-hosts", |ch| {
        let n = [63, 64, 65, 127, 128, 129, 252, 253, 254, 255, 256, 257, 300, 1024, 5000, 70_000][ch.choose(16)];
        let (tls, port) = (ch.choose(2) == 1, [0, 1, 143, 993, 1143, 65535][ch.choose(6)]);
        let host: String = (0..n).map(|i| if i % 20 == 19 { '.' } else { (b'a' + (i % 26) as u8) as char }).collect();
        let b = if tls { Bind::Tls { host: host.clone(), port, identity: Identity::CertificateChainAndLeafKey { certificate_chain_path: host.clone(), leaf_key_path: host.clone() } } } else { Bind::Insecure { host: host.clone(), port } };
        let c = if tls { Connect::Tls { host: host.clone(), port } } else { Connect::Insecure { host: host.clone(), port } };
        shown(tls, &host, port, b.addr_port(), b.to_string(), "binding")?;
        shown(tls, &host, port, c.addr_port(), c.to_string(), "connecting")?;
        round_trip(ch, &Config { services: vec![Service { name: host, bind: b, connect: c }] })
    }));
    v.push(Scenario::new("any-host", |ch| {
        let t = texts();
        let host = &t[ch.choose_big(t.len())];
        let (tls, port) = (ch.choose(2) == 1, [0, 143, 993, 65535][ch.choose(4)]);
        let b = if tls { Bind::Tls { host: host.clone(), port, identity: Identity::CertificateChainAndLeafKey { certificate_chain_path: host.clone(), leaf_key_path: host.clone() } } } else { Bind::Insecure { host: host.clone(), port } };
        let c = if tls { Connect::Tls { host: host.clone(), port } } else { Connect::Insecure { host: host.clone(), port } };
        shown(tls, host, port, b.addr_port(), b.to_string(), "binding")?;
        shown(tls, host, port, c.addr_port(), c.to_string(), "connecting")?;
        round_trip(ch, &Config { services: vec![Service { name: host.clone(), bind: b, connect: c }] })
    }));
    v.push(Scenario::new("every-port-every-kind", |ch| {
        let (tls, h, block) = (ch.choose(2) == 1, ch.choose(HOSTS.len()), ch.choose(64) as u32);
        for port in (block * 1024..(block + 1) * 1024).map(|p| p as u16) {
            let (b, c) = (bind(tls, h, port, 0), connect(tls, h, port));
            shown(tls, HOSTS[h], port, b.addr_port(), b.to_string(), "binding")?;
            shown(tls, HOSTS[h], port, c.addr_port(), c.to_string(), "connecting")?;
            ch.step(mc_engine::fp(&(tls, h, port)));
        }
        Ok(())
    }));
    const PORTS: &[u16] = &[143, 993, 0, 1, 65535, 1143, 8993];
    let np = PORTS.len();
    v.push(Scenario::new("round-trip-one-service", move |ch| {
        // All hosts of one side against a few of the other.
        let all = ch.choose(2) == 1;
        let host = |x: bool, ch: &mut Ch| ch.choose(if x { HOSTS.len() } else if thorough { 4 } else { 2 });
        let (bh, chost) = (host(all, ch), host(!all, ch));
        let name = ["x", "", "n\"\\\n\u{e9} = [a]", "  padded ", "'''x\0\r\n"][ch.choose(5)];
        let c = Config { services: vec![Service { name: name.into(), bind: bind(ch.choose(2) == 1, bh, PORTS[ch.choose(np)], ch.choose(PATHS.len())), connect: connect(ch.choose(2) == 1, chost, PORTS[ch.choose(if thorough { np } else { 3 })]) }] };
        round_trip(ch, &c)
    }));
    v.push(Scenario::new("round-trip-every-port", |ch| {
        let (bt, ct, block) = (ch.choose(2) == 1, ch.choose(2) == 1, ch.choose(1024) as u32);
        let services = (block * 64..(block + 1) * 64).map(|p| Service { name: format!("s{p}"), bind: bind(bt, 0, p as u16, 0), connect: connect(ct, 1, (65535 - p) as u16) }).collect();
        round_trip(ch, &Config { services })
    }));
    v.push(Scenario::new("round-trip-several-services", move |ch| {
        let n = ch.choose(if thorough { 5 } else { 4 });
        let services = (0..n).map(|i| Service { name: format!("s{}", i % 2), bind: bind(ch.choose(2) == 1, ch.choose(3), PORTS[ch.choose(2)], 0), connect: connect(ch.choose(2) == 1, 0, PORTS[ch.choose(2)]) }).collect();
        round_trip(ch, &Config { services })
    }));
    v
}
fn round_trip(ch: &mut Ch, c: &Config) -> Out {
    let text = match toml::to_string(c) { Ok(t) => t, Err(e) => return viol!(["P10"], "not-writable", "{c:?} cannot be written: {e}") };
    ch.step(mc_engine::fp(&text));
    match load(text.as_bytes()) {
        Ok(g) if same(&g, c) => Ok(()),
        Ok(g) => viol!(["P10"], "round-trip", "{c:?}\nwritten as\n{text}\nreads as {g:?}"),
        Err(e) => viol!(["P10"], "round-trip", "{c:?}\nwritten as\n{text}\nis refused: {e}"),
    }
}

fn main() {
    let a = mc_engine::args();
    let thorough = a.tier == "thorough";
    let (prop, scenarios) = match a.prop.as_str() { "P07" => ("P07", p07(thorough)), "P10" => ("P10", p10(thorough)), _ => { eprintln!("usage: mc-config P07|P10"); std::process::exit(2) } };
    let assumptions = vec!["The value domains of every field are the finite tables of mc-config/src/main.rs (all 65536 ports where printing is concerned).".to_string(), "The real toml and serde crates are used.".to_string()];
    mc_engine::cleanup(|| { if let Some(d) = DIR.get() { let _ = std::fs::remove_dir_all(d); } });
    mc_engine::drive(a, mc_engine::Check { prop, scenarios, assumptions })
}

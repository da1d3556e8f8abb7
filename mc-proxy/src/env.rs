//! Starts the real proxy program inside the simulated world.
use std::cell::RefCell;
use std::path::PathBuf;
use std::sync::OnceLock;

pub const BIND: &str = "127.0.0.1:1143";
static DIR: OnceLock<PathBuf> = OnceLock::new();
pub fn dir() -> &'static PathBuf {
    DIR.get_or_init(|| { let d = std::env::temp_dir().join(format!("mc-proxy-{}", std::process::id())); std::fs::create_dir_all(&d).unwrap(); d })
}
pub fn cleanup() { if let Some(d) = DIR.get() { let _ = std::fs::remove_dir_all(d); } }
/// Writes a file into the scratch directory once and returns its path.
pub fn file(name: &str, content: &str) -> String {
    static M: std::sync::Mutex<()> = std::sync::Mutex::new(());
    let p = dir().join(name);
    let _g = M.lock().unwrap();
    if std::fs::read(&p).ok().as_deref() != Some(content.as_bytes()) { std::fs::write(&p, content).unwrap() }
    p.to_str().unwrap().to_string()
}
#[derive(Clone, Debug)]
pub struct Svc { pub name: String, pub bind: String, pub bind_tls: Option<(String, String)>, pub connect_host: String, pub connect_port: u16, pub connect_tls: bool }
impl Svc {
    pub fn new(bind_tls: bool, connect_tls: bool) -> Self {
        Svc { name: "s".into(), bind: BIND.into(), bind_tls: bind_tls.then(|| (file("chain.pem", include_str!("../../pki/goodchain.pem")), file("key.pem", include_str!("../../pki/good.key")))), connect_host: "imap.test".into(), connect_port: 1, connect_tls }
    }
    pub fn upstream(&self) -> String { format!("{}:{}", self.connect_host, self.connect_port) }
    fn toml(&self) -> String {
        let (h, p) = self.bind.rsplit_once(':').unwrap();
        let b = match &self.bind_tls {
            None => format!("{{ encryption = \"Insecure\", host = \"{h}\", port = {p} }}"),
            Some((c, k)) => format!("{{ encryption = \"Tls\", host = \"{h}\", port = {p}, identity = {{ type = \"CertificateChainAndLeafKey\", certificate_chain_path = \"{c}\", leaf_key_path = \"{k}\" }} }}"),
        };
        format!("[[services]]\nname = \"{}\"\nbind = {b}\nconnect = {{ encryption = \"{}\", host = \"{}\", port = {} }}\n", self.name, if self.connect_tls { "Tls" } else { "Insecure" }, self.connect_host, self.connect_port)
    }
}
thread_local!(static LAST: RefCell<(String, String)> = const { RefCell::new((String::new(), String::new())) });
/// Adds the proxy's main task and runs it until all services wait for clients.
pub fn start(svcs: &[Svc]) { start_text(&svcs.iter().map(Svc::toml).collect::<String>()) }
pub fn start_text(t: &str) {
    LAST.with(|l| {
        let mut l = l.borrow_mut();
        if l.0 != t { *l = (t.to_string(), file(&format!("cfg-{:016x}.toml", mc_engine::fp(&t)), t)); argh::set("config", &l.1) }
    });
    simrt::add_task("main", Box::pin(async { if let Err(e) = proxy_under_test::async_main().await { simrt::note_panic(format!("MC: main failed: {e:?}")) } }));
    settle();
}
/// Runs tasks in default order until none is ready.
pub fn settle() {
    for n in 0.. {
        let r = simrt::ready();
        if r.is_empty() { return }
        if n > 20_000 { panic!("the proxy never comes to rest") }
        simrt::run_task(r[0]);
    }
}

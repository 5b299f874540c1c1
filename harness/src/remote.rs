//! Drives another interface of the library, in a process of its own, and compares what it answers.
use oracle::*;
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

struct Server {
    child: Child,
    w: Option<ChildStdin>,
    r: BufReader<ChildStdout>,
}
impl Server {
    fn start(var: &str) -> Server {
        let cmd = std::env::var(var).unwrap_or_else(|_| panic!("{var}: the command that serves the interface"));
        let mut child = Command::new("/bin/sh").arg("-c").arg(format!("exec {cmd}")).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(if std::env::var("VK_LOUD").is_ok() { Stdio::inherit() } else { Stdio::null() }).spawn().expect("start the interface");
        let w = child.stdin.take();
        let r = BufReader::with_capacity(1 << 16, child.stdout.take().unwrap());
        let mut s = Server { child, w, r };
        let hello = s.line().expect("the interface says hello");
        assert_eq!(hello.trim(), "ready", "the interface does not start");
        s
    }
    fn line(&mut self) -> Option<String> {
        let mut l = String::new();
        match self.r.read_line(&mut l) {
            Ok(n) if n > 0 => Some(l),
            _ => None,
        }
    }
}
impl Drop for Server {
    fn drop(&mut self) {
        self.w.take();
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
thread_local! {
    static S: RefCell<[Option<Server>; 2]> = const { RefCell::new([None, None]) };
}

/// One conversation: commands are collected, sent together, and the answers compared with what the library said.
pub struct Talk {
    cmds: Vec<V>,
    want: Vec<Option<V>>,
    what: Vec<String>,
    to: usize,
}
const SERVERS: [&str; 2] = ["VK_REMOTE", "VK_REMOTE2"];

impl Talk {
    pub fn new() -> Talk {
        Talk::with(0)
    }
    /// with one of the processes
    pub fn with(to: usize) -> Talk {
        Talk { to, cmds: vec![V::L(vec![V::s("x")])], want: vec![None], what: vec![String::new()] }
    }
    fn push(&mut self, cmd: Vec<V>, what: String, want: Option<V>) -> &mut Talk {
        self.cmds.push(V::L(cmd));
        self.want.push(want);
        self.what.push(what);
        self
    }
    /// a function of the module
    pub fn f(&mut self, name: &str, args: Vec<V>, want: Option<V>) -> &mut Talk {
        let mut c = vec![V::s("f"), V::s(name)];
        c.extend(args);
        self.push(c, format!("{name}()"), want)
    }
    pub fn make(&mut self, slot: usize, class: &str, args: Vec<V>) -> &mut Talk {
        let mut c = vec![V::s("n"), slot.v(), V::s(class)];
        c.extend(args);
        self.push(c, format!("{class}::new"), Some(V::O(class.to_string())))
    }
    pub fn m(&mut self, slot: usize, name: &str, args: Vec<V>, want: Option<V>) -> &mut Talk {
        let mut c = vec![V::s("m"), slot.v(), V::s(name)];
        c.extend(args);
        self.push(c, format!(".{name}()"), want)
    }
    pub fn get(&mut self, slot: usize, name: &str, want: Option<V>) -> &mut Talk {
        self.push(vec![V::s("g"), slot.v(), V::s(name)], format!(".{name}"), want)
    }
    pub fn set(&mut self, slot: usize, name: &str, val: V, want: Option<V>) -> &mut Talk {
        self.push(vec![V::s("s"), slot.v(), V::s(name), val], format!(".{name} ="), want)
    }
    /// an element, by index
    pub fn item(&mut self, slot: usize, k: usize, want: Option<V>) -> &mut Talk {
        self.push(vec![V::s("i"), slot.v(), k.v()], "[]".into(), want)
    }
    /// all elements, by a loop
    pub fn walk(&mut self, slot: usize, want: V) -> &mut Talk {
        self.push(vec![V::s("l"), slot.v()], "for".into(), Some(want))
    }
    /// time passes for the interface
    pub fn sleep(&mut self, ms: usize) -> &mut Talk {
        self.push(vec![V::s("z"), ms.v()], "sleep".into(), None)
    }
    pub fn len(&self) -> usize {
        self.cmds.len()
    }
    /// Sends everything; None after a difference was reported, else the answers in order (the first belongs to the reset).
    pub fn run(self, ctx: &mut Ctx, inp: impl Fn() -> String) -> Option<Vec<V>> {
        let mut line = V::L(self.cmds.clone()).text();
        line.push('\n');
        let reply = S.with(|s| {
            let mut s = s.borrow_mut();
            let s = &mut s[self.to];
            let v = s.get_or_insert_with(|| Server::start(SERVERS[self.to]));
            let w = v.w.as_mut().unwrap();
            let ok = w.write_all(line.as_bytes()).and_then(|_| w.flush()).is_ok();
            let r = if ok { v.line() } else { None };
            if r.is_none() {
                *s = None;
            }
            r
        });
        let Some(reply) = reply else {
            ctx.fail("interface ended", format!("the process ended instead of answering: {}", inp()));
            return None;
        };
        let ans = match V::parse(&reply) {
            Ok(a) => a.list().to_vec(),
            Err(e) => panic!("the interface answers {e}: {}", &reply[..reply.len().min(200)]),
        };
        if ans.len() != self.cmds.len() {
            panic!("{} answers to {} questions", ans.len(), self.cmds.len());
        }
        for (k, a) in ans.iter().enumerate() {
            if let Some(w) = &self.want[k] {
                if a != w {
                    ctx.fail(format!("differs:{}", self.what[k]), format!("{} answers {} where the library says {}; asked {}: {}", self.what[k], a.brief(), w.brief(), self.cmds[k].brief(), inp()));
                    return None;
                }
                ctx.ev(if matches!(w, V::E(_)) { "exceptions_agreed" } else { "answers_agreed" }, 1);
                if let V::E(e) = w {
                    ctx.ev(&format!("exceptions {} {e}", self.what[k]), 1);
                }
            }
        }
        Some(ans)
    }
}

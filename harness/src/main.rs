//! Executes library calls read from standard input, one per line, and reports what they return and what they do to the
//! storage backend. It judges nothing: the calls are chosen, and everything reported is checked, by the monitor in
//! py/checks. Arguments and results are hexadecimal; a report is one line of JSON.

use pfp::error::Error;
use pfp::passwords::Passwords;
use pfp::recovery_codes;
use pfp::storage_io::{FileIO, StorageIO};
use pfp::storage_types::{CharacterSet, CharacterType, Password, StoredPassword};
use secrecy::{ExposeSecret, SecretString, SecretVec};
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;
use std::rc::Rc;

fn hex(data: &[u8]) -> String {
    data.iter().map(|b| format!("{:02x}", b)).collect()
}

fn unhex(text: &str) -> Vec<u8> {
    let t = text.as_bytes();
    assert!(t.len() % 2 == 0);
    (0..t.len() / 2)
        .map(|i| u8::from_str_radix(&text[2 * i..2 * i + 2], 16).unwrap())
        .collect()
}

fn text(arg: &str) -> String {
    String::from_utf8(unhex(arg)).unwrap()
}

fn secret(arg: &str) -> SecretString {
    SecretString::new(text(arg))
}

#[derive(Default)]
struct Shared {
    calls: Vec<String>,
    fail_flush: usize,
    memory: Vec<(String, String)>,
    saved: Vec<(String, String)>,
    order: usize,
}

/// A backend in memory; `order` determines how keys are iterated over.
struct Memory {
    shared: Rc<RefCell<Shared>>,
    data: Vec<(String, String)>,
}

impl Memory {
    fn publish(&self) {
        self.shared.borrow_mut().memory = self.data.clone();
    }
}

impl StorageIO for Memory {
    fn contains_key(&self, key: &str) -> bool {
        self.data.iter().any(|(k, _)| k == key)
    }

    fn get(&self, key: &str) -> Result<&String, Error> {
        self.data
            .iter()
            .find(|(k, _)| k == key)
            .map(|(_, v)| v)
            .ok_or(Error::KeyMissing)
    }

    fn set(&mut self, key: String, value: String) {
        match self.data.iter_mut().find(|(k, _)| k == &key) {
            Some(entry) => entry.1 = value,
            None => {
                let order = self.shared.borrow().order;
                let len = self.data.len();
                let pos = match order {
                    0 => len,
                    1 => 0,
                    n => (len * 7 + n) % (len + 1),
                };
                self.data.insert(pos, (key, value));
            }
        }
        self.publish();
    }

    fn remove(&mut self, key: &str) -> Result<(), Error> {
        let pos = self
            .data
            .iter()
            .position(|(k, _)| k == key)
            .ok_or(Error::KeyMissing)?;
        self.data.remove(pos);
        self.publish();
        Ok(())
    }

    fn clear(&mut self) {
        self.data.clear();
        self.publish();
    }

    fn keys(&self) -> Box<dyn Iterator<Item = &String> + '_> {
        Box::new(self.data.iter().map(|(k, _)| k))
    }

    fn flush(&mut self) -> Result<(), Error> {
        self.shared.borrow_mut().saved = self.data.clone();
        Ok(())
    }
}

/// Records the calls, and makes saving fail when told to.
struct Monitored {
    shared: Rc<RefCell<Shared>>,
    inner: Box<dyn StorageIO>,
}

impl Monitored {
    fn log(&self, call: String) {
        self.shared.borrow_mut().calls.push(call);
    }
}

impl StorageIO for Monitored {
    fn contains_key(&self, key: &str) -> bool {
        self.inner.contains_key(key)
    }

    fn get(&self, key: &str) -> Result<&String, Error> {
        self.inner.get(key)
    }

    fn set(&mut self, key: String, value: String) {
        self.log(format!("set {} {}", hex(key.as_bytes()), hex(value.as_bytes())));
        self.inner.set(key, value)
    }

    fn remove(&mut self, key: &str) -> Result<(), Error> {
        self.log(format!("remove {}", hex(key.as_bytes())));
        self.inner.remove(key)
    }

    fn clear(&mut self) {
        self.log("clear".to_string());
        self.inner.clear()
    }

    fn keys(&self) -> Box<dyn Iterator<Item = &String> + '_> {
        self.inner.keys()
    }

    fn flush(&mut self) -> Result<(), Error> {
        let fail = {
            let mut shared = self.shared.borrow_mut();
            let fail = shared.fail_flush == 1;
            shared.fail_flush = shared.fail_flush.saturating_sub(1);
            shared
                .calls
                .push((if fail { "flush failed" } else { "flush" }).to_string());
            fail
        };
        if fail {
            Err(Error::FileWriteFailure {
                error: std::io::Error::new(std::io::ErrorKind::Other, "injected failure"),
            })
        } else {
            self.inner.flush()
        }
    }
}

struct Instance {
    passwords: Passwords<Monitored>,
    shared: Rc<RefCell<Shared>>,
}

fn error(e: &Error) -> String {
    let debug = format!("{:?}", e);
    let end = debug
        .find(|c: char| !c.is_alphanumeric())
        .unwrap_or(debug.len());
    format!(
        "\"err\":\"{}\",\"debug\":\"{}\"",
        &debug[..end],
        hex(debug.as_bytes())
    )
}

fn unit(r: Result<(), Error>) -> String {
    match r {
        Ok(_) => "\"ok\":null".to_string(),
        Err(e) => error(&e),
    }
}

fn boolean(r: Result<bool, Error>) -> String {
    match r {
        Ok(b) => format!("\"ok\":{}", b),
        Err(e) => error(&e),
    }
}

fn string(r: Result<String, Error>) -> String {
    match r {
        Ok(s) => format!("\"ok\":\"{}\"", hex(s.as_bytes())),
        Err(e) => error(&e),
    }
}

fn exposed(r: Result<SecretString, Error>) -> String {
    string(r.map(|s| s.expose_secret().to_string()))
}

fn charset(arg: &str) -> CharacterSet {
    let mut set = CharacterSet::empty();
    for c in arg.chars() {
        match c {
            'l' => set.insert(CharacterType::Lower),
            'u' => set.insert(CharacterType::Upper),
            'd' => set.insert(CharacterType::Digit),
            's' => set.insert(CharacterType::Symbol),
            _ => true,
        };
    }
    set
}

fn describe(p: &Password) -> String {
    let id = p.id();
    let head = format!(
        "\"site\":\"{}\",\"name\":\"{}\",\"revision\":\"{}\",\"notes\":\"{}\"",
        hex(id.site().as_bytes()),
        hex(id.name().as_bytes()),
        hex(id.revision().as_bytes()),
        hex(p.notes().expose_secret().as_bytes())
    );
    match p {
        Password::Generated(g) => {
            let set = g.charset();
            let mut flags = String::new();
            for (t, f) in [
                (CharacterType::Lower, 'l'),
                (CharacterType::Upper, 'u'),
                (CharacterType::Digit, 'd'),
                (CharacterType::Symbol, 's'),
            ] {
                if set.contains(t) {
                    flags.push(f);
                }
            }
            format!(
                "{{{},\"length\":{},\"charset\":\"{}\"}}",
                head,
                g.length(),
                flags
            )
        }
        Password::Stored(s) => format!(
            "{{{},\"password\":\"{}\"}}",
            head,
            hex(s.password().expose_secret().as_bytes())
        ),
    }
}

fn pairs(data: &[(String, String)]) -> String {
    let items: Vec<String> = data
        .iter()
        .map(|(k, v)| format!("[\"{}\",\"{}\"]", hex(k.as_bytes()), hex(v.as_bytes())))
        .collect();
    format!("[{}]", items.join(","))
}

#[derive(Default)]
struct World {
    instances: HashMap<String, Instance>,
    files: HashMap<String, FileIO>,
}

impl World {
    fn open(&mut self, slot: &str, kind: &str, args: &[&str]) -> String {
        let shared = Rc::new(RefCell::new(Shared::default()));
        let inner: Box<dyn StorageIO> = match kind {
            "memory" => {
                shared.borrow_mut().order = args[0].parse().unwrap();
                let data: Vec<(String, String)> = args[1..]
                    .chunks(2)
                    .map(|c| (text(c[0]), text(c[1])))
                    .collect();
                shared.borrow_mut().memory = data.clone();
                shared.borrow_mut().saved = data.clone();
                Box::new(Memory {
                    shared: shared.clone(),
                    data,
                })
            }
            "new" => Box::new(FileIO::new(Path::new(&text(args[0])))),
            "load" => match FileIO::load(Path::new(&text(args[0]))) {
                Ok(io) => Box::new(io),
                Err(e) => return error(&e),
            },
            _ => panic!("unknown backend"),
        };
        let io = Monitored {
            shared: shared.clone(),
            inner,
        };
        self.instances.insert(
            slot.to_string(),
            Instance {
                passwords: Passwords::new(io),
                shared,
            },
        );
        "\"ok\":null".to_string()
    }

    fn call(&mut self, slot: &str, op: &str, a: &[&str]) -> String {
        let instance = self.instances.get_mut(slot).unwrap();
        let p = &mut instance.passwords;
        match op {
            "initialized" => format!("\"ok\":{}", p.initialized()),
            "unlocked" => format!("\"ok\":{}", p.unlocked()),
            "reset" => unit(p.reset(secret(a[0]))),
            "unlock" => unit(p.unlock(secret(a[0]))),
            "lock" => {
                p.lock();
                "\"ok\":null".to_string()
            }
            "get_alias" => string(p.get_alias(&text(a[0]))),
            "set_alias" => unit(p.set_alias(&text(a[0]), &text(a[1]))),
            "remove_alias" => unit(p.remove_alias(&text(a[0]))),
            "remove_sites" => {
                let sites: Vec<String> = a.iter().map(|s| text(s)).collect();
                unit(p.remove_sites(&sites))
            }
            "set_generated" => unit(p.set_generated(
                &text(a[0]),
                &text(a[1]),
                &text(a[2]),
                a[3].parse().unwrap(),
                charset(a[4]),
            )),
            "set_stored" => {
                unit(p.set_stored(&text(a[0]), &text(a[1]), &text(a[2]), secret(a[3])))
            }
            "has" => boolean(p.has(&text(a[0]), &text(a[1]), &text(a[2]))),
            "get" => exposed(p.get(&text(a[0]), &text(a[1]), &text(a[2]))),
            "get_notes" => exposed(p.get_notes(&text(a[0]), &text(a[1]), &text(a[2]))),
            "set_notes" => unit(p.set_notes(&text(a[0]), &text(a[1]), &text(a[2]), secret(a[3]))),
            "remove" => unit(p.remove(&text(a[0]), &text(a[1]), &text(a[2]))),
            "get_recovery_code" => string(p.get_recovery_code(&StoredPassword::new(
                &text(a[0]),
                &text(a[1]),
                &text(a[2]),
                secret(a[3]),
            ))),
            "decode_recovery_code" => exposed(p.decode_recovery_code(&text(a[0]))),
            "list" => {
                let items: Vec<String> = p
                    .list(&text(a[0]), &text(a[1]))
                    .map(|p| describe(&p))
                    .collect();
                format!("\"ok\":[{}]", items.join(","))
            }
            "list_sites" => {
                let items: Vec<String> = p
                    .list_sites(&text(a[0]))
                    .map(|s| {
                        format!(
                            "[\"{}\",{}]",
                            hex(s.name().as_bytes()),
                            match s.alias() {
                                Some(a) => format!("\"{}\"", hex(a.as_bytes())),
                                None => "null".to_string(),
                            }
                        )
                    })
                    .collect();
                format!("\"ok\":[{}]", items.join(","))
            }
            "fail_flush" => {
                instance.shared.borrow_mut().fail_flush = a[0].parse().unwrap();
                "\"ok\":null".to_string()
            }
            "data" => format!("\"ok\":{}", pairs(&instance.shared.borrow().memory)),
            "saved" => format!("\"ok\":{}", pairs(&instance.shared.borrow().saved)),
            _ => panic!("unknown call"),
        }
    }

    fn file(&mut self, slot: &str, op: &str, a: &[&str]) -> String {
        match op {
            "new" => {
                self.files
                    .insert(slot.to_string(), FileIO::new(Path::new(&text(a[0]))));
                return "\"ok\":null".to_string();
            }
            "load" => {
                return match FileIO::load(Path::new(&text(a[0]))) {
                    Ok(io) => {
                        self.files.insert(slot.to_string(), io);
                        "\"ok\":null".to_string()
                    }
                    Err(e) => error(&e),
                };
            }
            _ => {}
        }
        let io = self.files.get_mut(slot).unwrap();
        match op {
            "contains_key" => format!("\"ok\":{}", io.contains_key(&text(a[0]))),
            "get" => string(io.get(&text(a[0])).map(|s| s.to_string())),
            "set" => {
                io.set(text(a[0]), text(a[1]));
                "\"ok\":null".to_string()
            }
            "remove" => unit(io.remove(&text(a[0]))),
            "clear" => {
                io.clear();
                "\"ok\":null".to_string()
            }
            "keys" => {
                let keys: Vec<String> = io
                    .keys()
                    .map(|k| format!("\"{}\"", hex(k.as_bytes())))
                    .collect();
                format!("\"ok\":[{}]", keys.join(","))
            }
            "flush" => unit(io.flush()),
            _ => panic!("unknown call"),
        }
    }

    fn code(&mut self, op: &str, a: &[&str]) -> String {
        match op {
            "generate" => string(recovery_codes::generate(
                &secret(a[0]),
                &unhex(a[1]),
                &SecretVec::new(unhex(a[2])),
            )),
            "format" => format!(
                "\"ok\":\"{}\"",
                hex(recovery_codes::format_code(&unhex(a[0]), a[1] == "1").as_bytes())
            ),
            "decode" => exposed(recovery_codes::decode(&text(a[0]), &secret(a[1]))),
            "key" => format!(
                "\"ok\":\"{}\"",
                hex(
                    pfp::passwords::get_encryption_key(&secret(a[0]), &unhex(a[1]))
                        .expose_secret()
                )
            ),
            _ => panic!("unknown call"),
        }
    }
}

fn main() {
    let mut world = World::default();
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        // An empty argument is written as "-"
        let words: Vec<&str> = line
            .split(' ')
            .map(|w| if w == "-" { "" } else { w })
            .collect();
        let result = catch_unwind(AssertUnwindSafe(|| match words[0] {
            "open" => world.open(words[1], words[2], &words[3..]),
            "close" => {
                world.instances.remove(words[1]);
                "\"ok\":null".to_string()
            }
            "call" => world.call(words[1], words[2], &words[3..]),
            "file" => world.file(words[1], words[2], &words[3..]),
            "code" => world.code(words[1], &words[2..]),
            _ => panic!("unknown command"),
        }))
        .unwrap_or_else(|_| "\"panic\":true".to_string());
        let calls: Vec<String> = match words.get(1).and_then(|s| world.instances.get(*s)) {
            Some(instance) => instance
                .shared
                .borrow_mut()
                .calls
                .drain(..)
                .map(|c| format!("\"{}\"", c))
                .collect(),
            None => Vec::new(),
        };
        let mut out = stdout.lock();
        writeln!(out, "{{{},\"calls\":[{}]}}", result, calls.join(",")).unwrap();
        out.flush().unwrap();
    }
}

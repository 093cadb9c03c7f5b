//! Ends the check with a verdict if the code under test does not come back from a call.
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// how long one call may take, and what memory the process may use before the longest call is blamed
pub const LIMIT: Duration = Duration::from_secs(60);
const MEMORY: u64 = 14 << 30;

type Slot = Arc<Mutex<Option<(Instant, String)>>>;
static SLOTS: Mutex<Vec<Slot>> = Mutex::new(Vec::new());

thread_local! {
    static MINE: Slot = {
        let s = Slot::default();
        SLOTS.lock().unwrap().push(s.clone());
        s
    };
}

/// run the code under test on an input
pub fn guard<T>(input: &str, f: impl FnOnce() -> T) -> T {
    struct Leave;
    impl Drop for Leave {
        fn drop(&mut self) {
            MINE.with(|m| *m.lock().unwrap() = None);
        }
    }
    MINE.with(|m| *m.lock().unwrap() = Some((Instant::now(), input.to_string())));
    let _leave = Leave;
    f()
}

fn resident() -> u64 {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) * 4096
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' | '\\' => {
                o.push('\\');
                o.push(c);
            }
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// start watching, for the check of property `id`
pub fn start(id: &str) {
    let id = id.to_string();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(100));
        let mut longest: Option<(Duration, String)> = None;
        let mut slots = SLOTS.lock().unwrap();
        // those of threads that have ended
        slots.retain(|s| Arc::strong_count(s) > 1);
        for s in slots.iter() {
            if let Some((t, text)) = &*s.lock().unwrap() {
                let t = t.elapsed();
                if t > Duration::from_secs(1) && longest.as_ref().is_none_or(|l| l.0 < t) {
                    longest = Some((t, text.clone()));
                }
            }
        }
        drop(slots);
        let Some((t, text)) = longest else { continue };
        let what = if t > LIMIT {
            format!("no answer within {} s", LIMIT.as_secs())
        } else if resident() > MEMORY {
            format!("{} GB of memory used, no answer after {} s", resident() >> 30, t.as_secs())
        } else {
            continue;
        };
        let dir = std::env::var("VERIF_REPLAY_DIR").unwrap_or_else(|_| "/verif/evidence/replay".into());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{id}-hang.json");
        let body = format!("{{\n \"property\": {},\n \"text\": {},\n \"note\": {}\n}}\n", esc(&id), esc(&text), esc(&what));
        let _ = std::fs::write(&path, body);
        println!("  {path}\n  input: {:?}: {what}", text.chars().take(300).collect::<String>());
        println!("VIOLATION property={id} replay={path}");
        std::process::exit(1);
    });
}

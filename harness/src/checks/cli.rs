//! C27: the command line tool, as a process.
use super::*;
use crate::jd::Mode;
use std::fs;
use std::io::Read;
use std::io::Write;
use std::os::unix::ffi::OsStrExt;
use std::path::Path;
use std::path::PathBuf;
use std::process::Child;
use std::process::Command;
use std::process::Stdio;
use std::sync::atomic::AtomicUsize;
use std::sync::atomic::Ordering;
use std::sync::Mutex;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C27",
        rule: "the built tool on any documents by file or standard input, with any combination of options, to standard output or file (also the input itself, odd names and devices), and with injected faults (input missing, a directory, not UTF-8; output full, closed, a directory, broken pipe); non-trivial: at least 1 event of content",
        labels: &["file input", "file output", "minified", "indented", "input fault", "output fault", "same file", "odd names", "device"],
        gen: gen_cli,
        test,
        relevant: always,
        quick: 12_000,
    }]
}

// numbers: input, output, minified, start indent, fault, position of option, kind of file
fn gen_cli(r: &mut Rng, g: &Guide) -> Case {
    let mut s = any_doc(r, g);
    if r.one(40) {
        // more than buffers hold
        s += "\n\n";
        s = s.repeat(1 + 20_000 / s.len());
    }
    let indent = *r.pick(&["", "", "\t", "  ", "é", "-x", "\u{1}", "--"]);
    Case {
        t: vec![s, indent.to_string()],
        n: vec![
            r.n(2) as u64,
            r.n(2) as u64,
            u64::from(r.one(3)),
            *r.pick(&[0, 0, 0, 1, 3, 17, 255, 256, 300, 1000]),
            if r.one(4) { r.r(1, 9) as u64 } else { 0 },
            r.n(4) as u64,
            if r.one(3) { r.r(1, 6) as u64 } else { 0 },
        ],
    }
}

fn scratch() -> PathBuf {
    static N: AtomicUsize = AtomicUsize::new(0);
    thread_local! {
        static DIR: PathBuf = {
            let base = std::env::var_os("HARNESS_SCRATCH").map_or_else(std::env::temp_dir, PathBuf::from);
            let d = base.join(format!("cli-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
            fs::create_dir_all(&d).expect("create scratch directory");
            d
        };
    }
    DIR.with(Clone::clone)
}

struct Run {
    code: Option<i32>,
    out: Vec<u8>,
    err: Vec<u8>,
}

/// One at a time: a process about to be started has copies of the pipes of others.
fn spawn(cmd: &mut Command) -> Child {
    static LOCK: Mutex<()> = Mutex::new(());
    let _l = LOCK.lock().unwrap_or_else(|e| e.into_inner());
    cmd.spawn().expect("run command")
}

fn run(cmd: &mut Command, input: Option<&[u8]>) -> Run {
    cmd.stdin(if input.is_some() { Stdio::piped() } else { Stdio::null() });
    let mut ch = spawn(cmd);
    let mut o = ch.stdout.take();
    let mut e = ch.stderr.take();
    let i = ch.stdin.take();
    let mut out = Vec::new();
    let mut err = Vec::new();
    std::thread::scope(|s| {
        if let (Some(mut i), Some(b)) = (i, input) {
            if b.len() < 60_000 {
                let _ = i.write_all(b);
                drop(i);
            } else {
                s.spawn(move || {
                    let _ = i.write_all(b);
                });
            }
        }
        if let Some(e) = &mut e {
            if let Some(o) = &mut o {
                let _ = o.read_to_end(&mut out);
            }
            let _ = e.read_to_end(&mut err);
        }
    });
    let st = ch.wait().expect("wait for tool");
    Run {
        code: st.code(),
        out,
        err,
    }
}

fn test(c: &Case) -> Out {
    let exe = std::env::var_os("HARNESS_CLI").expect("path of the built tool");
    let n = |i: usize| c.n.get(i).copied().unwrap_or(0);
    let src = c.t[0].as_str();
    let unit = c.t.get(1).map_or("", String::as_str);
    let (by_file, to_file, minified, level, fault, pos) = (n(0) == 1, n(1) == 1, n(2) == 1, n(3), n(4), n(5));
    if unit.contains('\0') {
        return Out::Pass(0);
    }
    let dir = scratch();
    let mut opts: Vec<Vec<std::ffi::OsString>> = Vec::new();
    let opt = |s: String| vec![std::ffi::OsString::from(s)];
    if minified {
        opts.push(opt("--minified".into()));
    }
    if level > 0 {
        opts.push(opt(format!("--start-indent={level}")));
    }
    if !unit.is_empty() {
        opts.push(opt(format!("--indent-string={unit}")));
    }
    let mode = if minified {
        Mode::Minified
    } else {
        Mode::Indented(unit.to_string(), level as usize)
    };
    let special = if fault == 0 { n(6) } else { 0 };
    let mut input = dir.join("in put.dj");
    let mut output = dir.join("out.html");
    let _ = fs::remove_file(&output);
    match special {
        1 => {
            input = dir.join(std::ffi::OsStr::from_bytes(b"\xff\xfe"));
            output = dir.join(std::ffi::OsStr::from_bytes(b"\xe6.o"));
            let _ = fs::remove_file(&output);
        }
        // the output replaces the input
        2 => output = input.clone(),
        3 => {
            let _ = std::os::unix::fs::symlink(&input, &output);
        }
        _ => {}
    }
    // an output that is the input exists by then
    let in_place = matches!(special, 2 | 3);
    let mut bytes = src.as_bytes().to_vec();
    let mut by_file = by_file;
    let mut to_file = to_file;
    let mut in_path = input.clone();
    let mut out_path = output.clone();
    // the tool has to fail
    match fault {
        1 => {
            let at = (pos as usize * 7) % (bytes.len() + 1);
            bytes.splice(at..at, *b"\xff");
            if std::str::from_utf8(&bytes).is_ok() {
                return Out::Pass(0);
            }
        }
        2 => {
            by_file = true;
            in_path = dir.join("missing");
        }
        3 => {
            by_file = true;
            in_path = dir.clone();
        }
        4 => {
            to_file = true;
            out_path = dir.join("no").join("dir");
        }
        5 => {
            to_file = true;
            out_path = dir.clone();
        }
        6 => {
            to_file = true;
            out_path = Path::new("/dev/full").to_path_buf();
        }
        7 | 8 => to_file = false,
        9 => {
            // truncated multi-byte character at the end
            bytes.extend_from_slice(&[0xe6, 0x97]);
        }
        _ => {}
    }
    match special {
        2 | 3 => {
            by_file = true;
            to_file = true;
        }
        4 => in_path = "/dev/stdin".into(),
        5 if to_file => out_path = "/dev/stdout".into(),
        _ => {}
    }
    let by_stdin = !by_file || special == 4;
    let to_stdout = !to_file || special == 5;
    if by_file {
        fs::write(&input, &bytes).expect("write input");
        opts.push(vec![in_path.clone().into_os_string()]);
    }
    if to_file {
        opts.push(if pos % 2 == 0 {
            vec!["-o".into(), out_path.clone().into_os_string()]
        } else {
            vec!["--output".into(), out_path.clone().into_os_string()]
        });
    }
    let k = opts.len().max(1);
    let rot = pos as usize % k;
    let rot = rot.min(opts.len());
    opts.rotate_left(rot);
    if to_file && fault == 0 && pos == 3 && !in_place {
        // an earlier file is replaced
        fs::write(&output, "x".repeat(70_000)).expect("write earlier output");
    }
    let mut cmd = Command::new(exe);
    cmd.args(opts.iter().flatten());
    cmd.stderr(Stdio::piped());
    match fault {
        7 => {
            cmd.stdout(fs::OpenOptions::new().write(true).open("/dev/full").expect("open /dev/full"));
        }
        8 => {
            // a pipe that nobody reads
            let mut p = spawn(Command::new("true").stdin(Stdio::piped()));
            let i = p.stdin.take().unwrap();
            p.wait().expect("wait");
            cmd.stdout(Stdio::from(i));
        }
        _ => {
            cmd.stdout(Stdio::piped());
        }
    }
    let r = run(&mut cmd, by_stdin.then_some(bytes.as_slice()));
    let want = jd::html(src, &mode);
    let desc = || {
        format!(
            "{:?} (input by {}, fault {fault}), exit code {:?}, stderr {:?}",
            opts,
            if by_file { "file" } else { "standard input" },
            r.code,
            String::from_utf8_lossy(&r.err)
        )
    };
    if fault != 0 {
        if want.is_empty() && matches!(fault, 6..=8) {
            // nothing has to be written
            return Out::Pass(0);
        }
        if r.code.is_none_or(|c| c == 0) {
            return fail(format!("does not fail: {}", desc()));
        }
        if r.err.is_empty() {
            return fail(format!("fails without a message: {}", desc()));
        }
        if r.code == Some(101) || String::from_utf8_lossy(&r.err).contains("panicked") {
            return fail(format!("panics: {}", desc()));
        }
        return Out::Pass(1 | if matches!(fault, 1..=3 | 9) { 32 } else { 64 });
    }
    if r.code != Some(0) {
        return fail(format!("fails: {}", desc()));
    }
    let got = if !to_stdout {
        match fs::read(&output) {
            Ok(b) => b,
            Err(e) => return fail(format!("output file: {e}: {}", desc())),
        }
    } else {
        r.out.clone()
    };
    if got != want.as_bytes() {
        return fail(format!(
            "writes {:?}, expected {:?}: {}",
            String::from_utf8_lossy(&got).chars().take(300).collect::<String>(),
            want.chars().take(300).collect::<String>(),
            desc()
        ));
    }
    if !to_stdout && !r.out.is_empty() {
        return fail(format!("writes to standard output too: {}", desc()));
    }
    if by_file && !in_place && fs::read(&input).ok().as_deref() != Some(bytes.as_slice()) {
        return fail(format!("changes its input: {}", desc()));
    }
    let mut l = u64::from(src.len() > 1);
    l |= u64::from(by_file) << 1;
    l |= u64::from(to_file) << 2;
    l |= u64::from(minified) << 3;
    l |= u64::from(!minified && !unit.is_empty()) << 4;
    l |= u64::from(in_place) << 7;
    l |= u64::from(special == 1 && (by_file || to_file)) << 8;
    l |= u64::from(special == 4 && by_file || special == 5 && to_file) << 9;
    Out::Pass(l)
}

//! C17: the real executable, run as a user runs it, observed through its files, exit status and messages.
use crate::codec::*;
use crate::gen;
use crate::mon::*;
use crate::reflzh;
use crate::reflzw;
use crate::rng::{hash_bytes, Rng};
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

struct Run { code: Option<i32>, sig: Option<i32>, err: String, out: Vec<u8> }
impl Run {
    fn how(&self) -> String { match self.sig { Some(s) => format!("killed by signal {s}"), None => format!("exit status {}", self.code.unwrap_or(-1)) } }
}

struct Dir(PathBuf);
impl Drop for Dir { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }

fn cli(dir: &Path, args: &[&str], stdin: &str, env: Option<&str>) -> Run { cli_limit(dir, args, stdin, env, "ulimit -f 4000000") }
fn cli_limit(dir: &Path, args: &[&str], stdin: &str, env: Option<&str>, limit: &str) -> Run { cli_as(dir, args, stdin.as_bytes(), env, limit, "") }
/// `wrap` is put in front of the executable, such as `setpriv ...` to run as somebody else
fn cli_as(dir: &Path, args: &[&str], stdin: &[u8], env: Option<&str>, limit: &str, wrap: &str) -> Run {
    let bin = std::env::var("RVMON_CLI").expect("RVMON_CLI is not set");
    // CPU and file-size limits keep a runaway executable inside its scratch directory
    let mut c = Command::new("sh");
    c.arg("-c").arg(format!("ulimit -t 60; ulimit -v 6000000; ulimit -c 0; {limit}; exec {wrap} \"$0\" \"$@\"")).arg(bin).args(args);
    c.current_dir(dir).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).env_remove("RUST_LOG").env_remove("RUST_BACKTRACE");
    if let Some(e) = env { c.env("RUST_LOG", e); }
    let mut ch = c.spawn().expect("cannot start the executable");
    let mut si = ch.stdin.take().unwrap();
    let _ = si.write_all(stdin);
    drop(si);
    let o = ch.wait_with_output().unwrap();
    Run { code: o.status.code(), sig: o.status.signal(), err: String::from_utf8_lossy(&o.stderr).into_owned(), out: o.stdout }
}

fn has_number(s: &str, n: u64) -> bool { s.split(|c: char| !c.is_ascii_digit()).any(|x| x.parse::<u64>() == Ok(n)) }

pub fn c17(idx: u64, rng: &mut Rng, st: &mut Stats, t: Tier) -> Check {
    let scratch = std::env::var("RVMON_SCRATCH").expect("RVMON_SCRATCH is not set");
    let dir = Dir(PathBuf::from(scratch).join(format!("cli-{}-{idx}", std::process::id())));
    std::fs::create_dir_all(&dir.0).unwrap();
    let d = dir.0.as_path();
    let (method, c) = match rng.below(4) { 0 => ("lzw", Codec::Lzw(lzw_opt(&reflzw::std_par()))), 1 => ("lzhuf-port", Codec::Port), 2 => ("lzss_huff", Codec::Lzss(lzss_opt(&reflzh::STD, true))), _ => ("td0", Codec::Td0) };
    let mx = match idx % 16 { 0 => if t == Tier::Quick { 150_000 } else { 400_000 }, 1..=4 => 20_000, _ => 2000 };
    let (mut plain, fam) = gen::input(rng, mx);
    if idx % 23 == 7 { plain.clear(); }
    let mut slack = 0;
    if method == "td0" {
        let v1 = rng.chance(1, 2);
        slack = if v1 { 0 } else { 7 };
        let v = gen::version(rng, v1);
        let mut h = gen::td0_header(rng, b"TD", v);
        h.extend_from_slice(&plain);
        plain = h;
    }
    let env = match rng.below(5) { 0 => Some("trace"), 1 => Some("off"), 2 => Some("debug"), _ => None };
    let bad = |sig: &str, m: String| Err(viol(sig, format!("{method} ({fam}, {} bytes, RUST_LOG {env:?}): {m}", plain.len()), &plain));
    // names with blanks, dots, other alphabets, folders
    let (ni, no, ne) = match rng.below(8) { 0 => ("in put.bin", "out put", "ex p"), 1 => ("\u{e9}t\u{e9}", "\u{65e5}\u{672c}.td0", "x.y.z"), 2 => ("sub/in", "sub/out", "exp"), 3 => ("IN.TXT", "sub/../out", "./exp"), _ => ("in", "out", "exp") };
    std::fs::create_dir_all(d.join("sub")).unwrap();
    let (pi, po, pe) = (d.join(ni), d.join(no), d.join(ne));
    std::fs::write(&pi, &plain).unwrap();
    let want = match c.compress_slice(&plain) { Ok(z) => z, Err(f) => return bad("compress-failed", format!("library: {f:?}")) };
    let wexp = match c.expand_slice(&want) { Ok(z) => z, Err(f) => return bad("expand-failed", format!("library: {f:?}")) };

    // every step: (verb, in, out, expected content)
    for (verb, i, o, w, pin) in [("compress", ni, no, &want, &pi), ("expand", no, ne, &wexp, &po)] {
        let pout = if verb == "compress" { &po } else { &pe };
        let before_in = std::fs::read(pin).unwrap();
        let kind = rng.below(6);
        // an output that already exists, shorter, longer, or equal; and the answer given at the prompt
        let held: Option<Vec<u8>> = if kind < 2 { None } else { let n = match rng.below(5) { 0 => 0, 1 => w.len().saturating_sub(1 + rng.below(20)), 2 => w.len(), 3 => w.len() + 1 + rng.below(8), _ => w.len() + rng.logsize(20_000) }; Some((0..n).map(|_| rng.byte()).collect()) };
        if let Some(h) = &held { std::fs::write(pout, h).unwrap(); }
        let refuse = held.is_some() && rng.chance(1, 4);
        if refuse {
            let ans = rng.pick(&["n\n", "N\n", "no\n", "\n", "", "q\n", "n\ny\n", "\ny\n", "yn\n", "ny\n", "maybe\n", "yesterday\n"]);
            let r = cli(d, &[verb, "-m", method, "-i", i, "-o", o], ans, env);
            if r.code != Some(0) { return bad("abort-status", format!("{verb}: answering {ans:?} must stop quietly, got {}: {}", r.how(), r.err.trim())); }
            if std::fs::read(pout).ok() != held { return bad("overwritten-without-consent", format!("{verb}: the existing output changed although the answer was {ans:?}")); }
            st.inc("refused_overwrites");
        }
        let ans = if held.is_some() { rng.pick(&["y\n", "Y\n", "y\r\n", "y"]) } else { "" };
        let order = rng.below(4);
        let (long_m, long_i, long_o) = (format!("--method={method}"), format!("--input={i}"), format!("--output={o}"));
        let a: Vec<&str> = match order { 3 => vec![verb, &long_m, &long_i, &long_o], 0 => vec![verb, "-m", method, "-i", i, "-o", o], 1 => vec![verb, "-o", o, "-i", i, "-m", method], _ => vec![verb, "--method", method, "--input", i, "--output", o] };
        let r = cli(d, &a, ans, env);
        let what = format!("{verb} onto {}", held.as_ref().map(|h| format!("an existing file of {} bytes", h.len())).unwrap_or("a new file".into()));
        if r.code != Some(0) { return bad("failed", format!("{what}: {}: {}", r.how(), r.err.trim())); }
        let got = match std::fs::read(pout) { Ok(g) => g, Err(e) => return bad("no-output", format!("{what}: {e}")) };
        if &got != w { return bad("wrong-output", format!("{what}: the file has {} bytes and differs from the library's result of {} bytes at {}", got.len(), w.len(), got.iter().zip(w.iter()).position(|(a, b)| a != b).unwrap_or(got.len().min(w.len())))); }
        if std::fs::read(pin).unwrap() != before_in { return bad("input-changed", what); }
        if !has_number(&r.err, w.len() as u64) { return bad("reported-size", format!("{what}: the message does not give the output size {}: {}", w.len(), r.err.trim())); }
        if !r.out.is_empty() { return bad("stdout", format!("{what}: unexpected bytes on standard output")); }
        st.inc(&format!("{verb}:{method}"));
        st.inc(match &held { None => "fresh_output", Some(h) if h.len() > w.len() => "longer_output_overwritten", Some(_) => "shorter_output_overwritten" });
        st.case(hash_bytes(hash_bytes(kind as u64, &a.join(" ").into_bytes()), &before_in), true);
    }
    let back = std::fs::read(&pe).unwrap();
    if back.len() < plain.len() || back[..plain.len()] != plain[..] || back.len() > plain.len() + slack { return bad("roundtrip", format!("compress then expand gives {} bytes back for {}", back.len(), plain.len())); }
    st.sample(|| format!("{method}: {} bytes of {fam} -> {} -> {} through the executable", plain.len(), want.len(), back.len()));

    if idx % 64 == 1 {
        let r = cli(d, &["--help"], "", env);
        let text = String::from_utf8_lossy(&r.out).into_owned();
        if r.code != Some(0) || !text.contains("compress") || !text.contains("expand") { return bad("help", format!("--help: {}; {}", r.how(), text.trim())); }
        st.inc("help_shown");
    }
    // an output that is the input, however it is named, cannot be produced: refused, and nothing is lost
    if idx % 4 == 1 {
        let (verb, data) = if rng.chance(1, 2) { ("compress", &plain) } else { ("expand", &want) };
        std::fs::write(d.join("same"), data).unwrap();
        let (a, b, how) = match rng.below(5) {
            0 => ("same", "same", "the same name"),
            1 => ("same", "./same", "another name"),
            2 => ("sub/../same", "same", "another name"),
            3 => { std::os::unix::fs::symlink("same", d.join("soft")).unwrap(); if rng.chance(1, 2) { ("same", "soft", "a symbolic link") } else { ("soft", "same", "a symbolic link") } }
            _ => { std::fs::hard_link(d.join("same"), d.join("hard")).unwrap(); ("same", "hard", "a hard link") }
        };
        let ans = rng.pick(&["y\n", "n\n", ""]);
        let r = cli(d, &[verb, "-m", method, "-i", a, "-o", b], ans, env);
        let now = std::fs::read(d.join("same")).unwrap();
        if &now != data { return bad("input-destroyed", format!("{verb} onto its own input, given as {how}: the file changed from {} to {} bytes, {}", data.len(), now.len(), r.how())); }
        if r.sig.is_some() || r.code == Some(101) { return bad("crash", format!("{verb} onto its own input, given as {how}: {}: {}", r.how(), r.err.trim())); }
        if ans == "y\n" && r.code == Some(0) { return bad("bad-request-accepted", format!("{verb} onto its own input, given as {how}: exit status 0")); }
        if r.err.trim().is_empty() { return bad("silent-failure", format!("{verb} onto its own input: nothing on standard error")); }
        st.inc(&format!("own_input:{}", how.replace(' ', "_")));
        st.case(hash_bytes(78, format!("{idx} {verb} {how}").as_bytes()), true);
    }
    // an answer that is no text is no consent
    if idx % 16 == 2 {
        let held: Vec<u8> = (0..rng.range(1, 3000)).map(|_| rng.byte()).collect();
        std::fs::write(d.join("held"), &held).unwrap();
        let ans: Vec<u8> = rng.pick(&[&b"\xff\n"[..], b"y\xe9s\n", b"\x80", b"\xc3\n"]).to_vec();
        let r = cli_as(d, &["compress", "-m", method, "-i", ni, "-o", "held"], &ans, env, "ulimit -f 4000000", "");
        if r.sig.is_some() || r.code == Some(101) { return bad("crash", format!("the answer {ans:?}: {}: {}", r.how(), r.err.trim())); }
        if std::fs::read(d.join("held")).unwrap() != held { return bad("overwritten-without-consent", format!("the existing output changed although the answer was {ans:?}")); }
        st.inc("answers_that_are_no_text");
    }
    // an output its owner may write but not read is still an existing output
    if idx % 16 == 6 {
        let held: Vec<u8> = (0..rng.range(1, 3000)).map(|_| rng.byte()).collect();
        let pk = d.join("sealed");
        use std::os::unix::fs::PermissionsExt;
        std::fs::write(&pk, &held).unwrap();
        std::fs::set_permissions(&pk, std::fs::Permissions::from_mode(0o222)).unwrap();
        let nobody = "setpriv --reuid 65534 --regid 65534 --clear-groups";
        // only where an unprivileged user can be had, and is indeed kept from reading
        let probe = Command::new("sh").arg("-c").arg(format!("{nobody} sh -c 'test -r \"$0\" && ! head -c 1 \"$1\"' in sealed")).current_dir(d).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).status();
        let probe = ni == "in" && probe.map(|s| s.success()).unwrap_or(false);
        if probe {
            let yes = rng.chance(1, 3);
            let r = cli_as(d, &["compress", "-m", method, "-i", "in", "-o", "sealed"], if yes { b"y\n" } else { b"n\n" }, env, "ulimit -f 4000000", nobody);
            let now = std::fs::read(&pk).unwrap();
            if r.code != Some(0) { return bad("failed", format!("onto an output that can be written but not read: {}: {}", r.how(), r.err.trim())); }
            if yes && now != want { return bad("wrong-output", format!("onto an output that can be written but not read: {} bytes, the library gives {}", now.len(), want.len())); }
            if !yes && now != held { return bad("overwritten-without-consent", "an existing output that can be written but not read was replaced although the answer was no".into()); }
            st.inc("unreadable_outputs");
        } else { st.inc("unreadable_outputs_not_possible"); }
    }
    // rejected requests: non-zero exit, no panic, no damage
    if idx % 3 == 0 {
        let mut keep: Vec<u8> = (0..rng.logsize(3000)).map(|_| rng.byte()).collect();
        keep.push(1);
        let exists = rng.chance(2, 3);
        let pk = d.join("keep");
        if exists { std::fs::write(&pk, &keep).unwrap(); }
        let verb = if rng.chance(1, 2) { "compress" } else { "expand" };
        let mut untouched = true;
        let (args, why): (Vec<&str>, &str) = match rng.below(14) {
            10 => (vec![verb, "-i", ni, "-o", "keep"], "no method given"),
            11 => (vec![verb, "-m", method, "-i", ni], "no output given"),
            12 => (vec![verb, "-m", method, "-i", ni, "-o", "keep", rng.pick(&["--fast", "-z", "more"])], "unknown argument"),
            13 => (vec![verb, "-m", method, "-i", ni, "-i", "missing", "-o", "keep"], "input given twice"),
            7 => { untouched = false; (vec![verb, "-m", method, "-i", "sub", "-o", "keep"], "input is a folder") }
            8 => (vec![verb, "-m", method, "-i", ni, "-o", "nowhere/keep"], "output in a missing folder"),
            9 => (vec!["squash", "-m", method, "-i", ni, "-o", "keep"], "unknown verb"),
            0 => (vec![verb, "-m", method, "-i", "missing", "-o", "keep"], "missing input"),
            1 => (vec!["compress", "-m", "zip", "-i", ni, "-o", "keep"], "unknown method"),
            2 => { untouched = exists; (vec!["expand", "-m", "zip", "-i", ni, "-o", "keep"], "unknown method") }
            3 => (vec![verb, "-m", method, "-o", "keep"], "no input given"),
            4 => {
                // a TD0 header that must be refused
                let mut h = gen::td0_header(rng, if verb == "compress" { b"TD" } else { b"td" }, 21);
                match rng.below(4) { 0 => h[0] = b'X', 1 => { h[0] ^= 0x20; h[1] ^= 0x20; } 2 => h[2 + rng.below(10)] ^= 1 << rng.below(8), _ => h.truncate(rng.below(12)) }
                if h.len() == 12 { h.extend_from_slice(b"some body bytes"); }
                std::fs::write(d.join("bad"), &h).unwrap();
                untouched = exists;
                (vec![verb, "-m", "td0", "-i", "bad", "-o", "keep"], "bad TD0 header")
            }
            5 => { untouched = exists; std::fs::write(d.join("bad"), [0xffu8, 0xff, 0xff, 0xff, 0xff]).unwrap(); (vec!["expand", "-m", "lzw", "-i", "bad", "-o", "keep"], "impossible LZW code") }
            _ => { untouched = false; (vec![verb, "-m", if method == "td0" { "lzw" } else { method }, "-i", if verb == "compress" { ni } else { no }, "-o", "keep"], "full device") }
        };
        // nothing to write means nothing can fail on a full device
        let skip = why == "full device" && (plain.is_empty() || method == "td0");
        if !skip {
            // a full disk: every write to a file is refused, with the error code instead of the signal
            let r = if why == "full device" { cli_limit(d, &args, "y\n", env, "trap '' XFSZ; ulimit -f 0") } else { cli(d, &args, "y\n", env) };
            match (r.code, r.sig) {
                (Some(0), _) => return bad("bad-request-accepted", format!("{why} ({}): exit status 0", args.join(" "))),
                (Some(101), _) | (None, _) => return bad("crash", format!("{why} ({}): {}: {}", args.join(" "), r.how(), r.err.trim())),
                _ => {}
            }
            if r.err.trim().is_empty() { return bad("silent-failure", format!("{why}: nothing on standard error")); }
            if untouched {
                let now = std::fs::read(&pk).ok();
                if exists && now.as_ref() != Some(&keep) { return bad("damaged-output", format!("{why} ({}): the existing output changed", args.join(" "))); }
                if !exists && now.is_some() { return bad("stray-output", format!("{why} ({}): an output file appeared", args.join(" "))); }
            }
            st.inc(&format!("rejected:{}", why.replace(' ', "_")));
            st.case(hash_bytes(77, format!("{idx} {}", args.join(" ")).as_bytes()), true);
        }
    }
    Ok(())
}

// What std::fs answers on a real disk; run natively and as the simulated driver, the two outputs are compared (DESIGN.md 1).
// Known difference: symbolic links are refused in the simulation.
use std::fs::{self, *};
use std::io::{*, Seek as _};
use std::path::Path;
fn k<T: std::fmt::Debug>(n: &str, r: Result<T>) { match r { Ok(v) => eprintln!("{n}: ok {v:?}"), Err(e) => eprintln!("{n}: err {:?} {:?}", e.kind(), e.raw_os_error()) } }
fn meta(n: &str, p: &str) { k(n, fs::metadata(p).map(|m| (m.is_dir(), m.is_file(), if m.is_file() { m.len() } else { 0 }, m.permissions().readonly(), m.file_type().is_symlink()))) }
fn main() {
    eprintln!("{:?}", Path::new("a").exists());
    meta("meta none", "nope");
    k("try_exists", fs::exists("nope"));
    k("symlink_metadata", fs::symlink_metadata("nope").map(|_| ()));
    k("create_dir_all", create_dir_all("d/e/f"));
    k("create_dir again", create_dir("d"));
    k("create_dir_all again", create_dir_all("d/e"));
    k("write", fs::write("d/x.txt", b"hello world"));
    k("read", fs::read("d/x.txt"));
    k("read_to_string", fs::read_to_string("d/x.txt"));
    meta("meta", "d/x.txt"); meta("meta dir", "d"); meta("slash", "d/"); meta("file slash", "d/x.txt/");
    k("copy", fs::copy("d/x.txt", "d/y.txt"));
    k("copy dir", fs::copy("d", "d2"));
    k("copy none", fs::copy("none", "d2"));
    k("read copy", fs::read_to_string("d/y.txt"));
    k("rename", fs::rename("d/y.txt", "d/z.txt"));
    k("rename over", { fs::write("d/q", b"q").unwrap(); fs::rename("d/z.txt", "d/q") });
    k("rename none", fs::rename("none", "d/q"));
    k("rename dir", fs::rename("d/e", "d/g"));
    k("rename file over dir", fs::rename("d/q", "d/g"));
    meta("moved dir", "d/g/f");
    k("read q", fs::read_to_string("d/q"));
    k("hard_link", fs::hard_link("d/q", "d/hl").map_err(|e| e));
    k("remove hl", fs::remove_file("d/hl"));
    k("create_new exists", File::create_new("d/q").map(|_| ()));
    k("create_new", File::create_new("d/new").map(|_| ()));
    k("open none", File::open("d/none").map(|_| ()));
    k("open dir", File::open("d").map(|_| ()));
    k("read dir as file", File::open("d").and_then(|mut f| { let mut s = String::new(); f.read_to_string(&mut s) }));
    k("create over dir", File::create("d").map(|_| ()));
    k("create in none", File::create("none/x").map(|_| ()));
    k("create in file", File::create("d/q/x").map(|_| ()));
    k("open empty", File::open("").map(|_| ()));
    k("append", OpenOptions::new().append(true).open("d/q").and_then(|mut f| f.write_all(b"++")));
    k("read q", fs::read_to_string("d/q"));
    k("rw", OpenOptions::new().read(true).write(true).open("d/q").and_then(|mut f| { f.seek(SeekFrom::Start(2))?; f.write_all(b"ZZ")?; f.seek(SeekFrom::End(-3))?; let mut s = String::new(); f.read_to_string(&mut s)?; Ok((s, f.stream_position()?)) }));
    k("set_len", OpenOptions::new().write(true).open("d/q").and_then(|f| f.set_len(3)));
    k("read q", fs::read_to_string("d/q"));
    k("set_len up", OpenOptions::new().write(true).open("d/q").and_then(|f| f.set_len(6)));
    k("read q", fs::read("d/q"));
    k("write to ro", File::open("d/q").and_then(|mut f| f.write(b"x")));
    k("read from wo", OpenOptions::new().write(true).open("d/q").and_then(|mut f| { let mut b = [0; 3]; f.read(&mut b) }));
    k("truncate", OpenOptions::new().write(true).truncate(true).open("d/q").map(|_| ()));
    meta("empty", "d/q");
    k("sync", File::create("d/s").and_then(|f| { f.sync_all()?; f.sync_data() }));
    k("lock", File::create("d/s").and_then(|f| { f.lock()?; f.unlock() }));
    k("try_lock", File::create("d/s").and_then(|f| { eprintln!("{:?}", f.try_lock().is_ok()); Ok(()) }));
    k("try_clone", File::create("d/s").and_then(|mut f| { let mut g = f.try_clone()?; f.write_all(b"ab")?; g.write_all(b"cd") }));
    k("read s", fs::read_to_string("d/s"));
    k("canonicalize none", fs::canonicalize("none").map(|_| ()));
    k("canonicalize", fs::canonicalize("d/../d/./s").map(|p| p.strip_prefix(std::env::current_dir().unwrap()).unwrap().to_path_buf()));
    k("dir entries", fs::read_dir("d").map(|d| { let mut v: Vec<_> = d.map(|e| { let e = e.unwrap(); (e.file_name(), e.file_type().unwrap().is_dir(), e.metadata().map(|m| m.is_dir()).unwrap_or(false)) }).collect(); v.sort(); v }));
    k("read_dir none", fs::read_dir("none").map(|_| ()));
    k("read_dir file", fs::read_dir("d/s").map(|_| ()));
    k("perms", fs::metadata("d/s").and_then(|m| { let mut p = m.permissions(); p.set_readonly(true); fs::set_permissions("d/s", p) }));
    meta("ro", "d/s");
    k("perms back", fs::metadata("d/s").and_then(|m| { let mut p = m.permissions(); p.set_readonly(false); fs::set_permissions("d/s", p) }));
    k("set_modified", File::options().write(true).open("d/s").and_then(|f| f.set_modified(std::time::SystemTime::UNIX_EPOCH)));
    k("modified", fs::metadata("d/s").and_then(|m| m.modified()).map(|_| ()));
    k("remove dir full", fs::remove_dir("d"));
    k("remove dir as file", fs::remove_file("d/g"));
    k("remove file as dir", fs::remove_dir("d/s"));
    k("remove none", fs::remove_file("d/none"));
    k("bufwriter", File::create("d/b").and_then(|f| { let mut w = BufWriter::with_capacity(4, f); for i in 0..10 { writeln!(w, "line {i}")?; } w.into_inner().map_err(|e| e.into_error())?.sync_all() }));
    k("linewriter", File::create("d/l").and_then(|f| { let mut w = LineWriter::new(f); w.write_all(b"abc\ndef")?; w.flush() }));
    k("lines", File::open("d/b").map(|f| BufReader::with_capacity(3, f).lines().map(|l| l.unwrap()).collect::<Vec<_>>()));
    k("io::copy", File::open("d/b").and_then(|mut f| std::io::copy(&mut f, &mut File::create("d/c")?)));
    k("io::copy small", File::open("d/b").and_then(|f| std::io::copy(&mut f.take(5), &mut File::create("d/c2")?)));
    meta("c", "d/c"); meta("c2", "d/c2");
    k("vectored", File::create("d/v").and_then(|mut f| f.write_vectored(&[IoSlice::new(b"ab"), IoSlice::new(b"cde")])));
    { use std::os::unix::fs::FileExt; k("write_at", File::create("d/v").and_then(|f| f.write_all_at(b"xyz", 3))); k("read_at", File::open("d/v").and_then(|f| { let mut b = [9; 4]; f.read_exact_at(&mut b, 1)?; Ok(b) })); k("read_at eof", File::open("d/v").and_then(|f| { let mut b = [9; 40]; f.read_exact_at(&mut b, 1) })); }
    k("symlink", std::os::unix::fs::symlink("x.txt", "d/ln"));
    k("tmp rename", { fs::write("d/.t", b"t").unwrap(); fs::rename("d/.t", "d/x.txt") });
    k("read x", fs::read_to_string("d/x.txt"));
    k("unlinked open", File::options().read(true).write(true).create(true).open("d/u").and_then(|mut f| { fs::remove_file("d/u")?; f.write_all(b"gone")?; f.rewind()?; let mut s = String::new(); f.read_to_string(&mut s)?; Ok((s, f.metadata()?.len(), Path::new("d/u").exists())) }));
    k("chdir", std::env::set_current_dir("d").map(|_| std::env::current_dir().unwrap().ends_with("d")));
    k("read rel", fs::read_to_string("x.txt"));
    k("read parent", fs::read_to_string("../d/x.txt"));
    k("chdir none", std::env::set_current_dir("zzz"));
    k("chdir up", std::env::set_current_dir(".."));
    k("remove_dir_all none", fs::remove_dir_all("zzz"));
    k("remove_dir_all", fs::remove_dir_all("d/g"));
    k("remove_dir_all d", fs::remove_dir_all("d"));
    eprintln!("{:?}", Path::new("d").exists());
    k("temp_dir file", { let p = std::env::temp_dir().join("fst-xyz"); let r = fs::write(&p, b"1"); let _ = fs::remove_file(&p); r });
    k("long name", File::create("x".repeat(300)).map(|_| ()));
    eprintln!("{:?}", std::thread::available_parallelism().is_ok());
    eprintln!("{:?}", std::env::current_exe().is_ok());
    eprintln!("{:?}", std::time::SystemTime::now() > std::time::UNIX_EPOCH);
    let h = std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_millis(20)); 5 });
    eprintln!("{:?} {:?}", h.join().is_ok(), std::io::stdout().is_terminal());
    let (tx, rx) = std::sync::mpsc::channel(); std::thread::scope(|s| { for i in 0..3 { let tx = tx.clone(); s.spawn(move || tx.send(i).unwrap()); } }); drop(tx); let mut v: Vec<i32> = rx.iter().collect(); v.sort(); eprintln!("{v:?}");
    k("rx timeout", { let (_tx, rx) = std::sync::mpsc::channel::<i32>(); Ok(rx.recv_timeout(std::time::Duration::from_millis(5)).is_err()) });
    k("command", Ok(()));
    eprintln!("done");
}

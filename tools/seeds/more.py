import os
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
exec(open(os.path.join(V, 'tools/seeds/ssh1.py')).read().split("ssh('one-sided-cipher'")[0])
C = 'nora_ssh_core/src/'
seed('debug-language', 'C01', [(C + 'message/mod.rs', '''		let (b, buf) = make_string2(buf, self.message.as_ref())?;
		let (c, _) = make_string2(buf, self.language)?;
		Some(a + b + c)''', '''		let (b, buf) = make_string2(buf, self.message.as_ref())?;
		let (c, _) = make_string2(buf, if self.message.is_empty() { b"" } else { self.language })?;
		Some(a + b + c)''')], r'''
use nora_ssh_core::message::*;
fn main() {
    for message in ["", "x"] { for language in [&b""[..], b"en"] {
        let mut b = [0; 64];
        let (e, _) = Message::Debug(Debug { always_display: true, message, language }).serialize(&mut b).unwrap();
        let e = e.to_vec();
        match Message::parse(&e) { Ok(Message::Debug(d)) => assert!(d.always_display && d.message == message && d.language == language, "{:?} {:?}", message, language), _ => panic!() }
    } }
}
''', 'a debug message with a language tag and no text', 'the language tag is lost')
seed('align-64', 'C09', [(C + 'packet.rs', '(slf.packet_len() + offt) % block_size.to_usize() != 0', '(slf.packet_len() + offt) & (block_size.to_usize() - 1) & 0x1f != 0')], r'''
use nora_ssh_core::packet::*;
fn main() {
    for (b, n) in [(BlockSize::B8, 8usize), (BlockSize::B16, 16), (BlockSize::B32, 32), (BlockSize::B64, 64)] {
        for off in [false, true] { for len in 1..300usize {
            let mut d = vec![0; 4 + len];
            d[..4].copy_from_slice(&(len as u32).to_be_bytes());
            let want = (len + if off { 4 } else { 0 }) % n == 0;
            assert_eq!(Packet::wrap_raw(&mut d, off, b).is_ok(), want, "length {} with blocks of {}", len, n);
        } }
    }
}
''', 'blocks of 64 bytes and a packet aligned to 32 of them', 'an unaligned packet is accepted')
ssh('short-write', 'C16', [(S + 'host.rs', 'io.write_all(pkt).await.map_err(OutError::Write)', """let n = io.write(pkt).await.map_err(OutError::Write)?;
		io.write(&pkt[n..]).await.map(|_| ()).map_err(OutError::Write)""")], r"""
fn main() {
    for k in 0..20 {
        // the pipe takes one or five bytes at a time now and then
        let r = &mut Rng(k);
        let (sv, mut p) = login(r);
        for n in 0..20u32 {
            p.send_msg(r, "open", vec![s(b"session"), u(n), u(100), u(100)]);
            let a = ok(p.drain());
            assert_eq!(a.len(), 1, "{} answers", a.len());
        }
        alive(&sv);
    }
}
""", 'a connection that takes a packet in three pieces or more', 'the rest of the packet is never sent')
seed('long-user', 'C18', [(C + 'message/userauth.rs', '''	let (_, b) = make_string2(b, user)?;
	let (_, b) = make_string2(b, service)?;
	let (_, b) = make_string2(b, b"publickey")?;''', '''	let (_, b) = make_string2(b, &user[..user.len().min(255)])?;
	let (_, b) = make_string2(b, service)?;
	let (_, b) = make_string2(b, b"publickey")?;''')], r'''
use nora_ssh_core::message::*;
fn s(o: &mut Vec<u8>, x: &[u8]) { o.extend((x.len() as u32).to_be_bytes()); o.extend(x) }
fn main() {
    for n in [0, 1, 254, 255, 256, 300] {
        let user = vec![b'u'; n];
        let mut b = [0; 1024];
        let d = userauth::format_sign_data(&mut b, &[7; 32], &user, b"ssh-connection", b"ssh-ed25519", b"blob").unwrap();
        let mut w = vec![]; s(&mut w, &[7; 32]); w.push(50); s(&mut w, &user); s(&mut w, b"ssh-connection"); s(&mut w, b"publickey"); w.push(1); s(&mut w, b"ssh-ed25519"); s(&mut w, b"blob");
        assert!(d == &w[..], "user name of {} bytes", n);
    }
}
''', 'a user name longer than 255 bytes', 'users that differ only behind that sign the same data')
seed('same-file-twice', 'C25', [('nora_scp/src/main.rs', '_ => paths.push(a.into()),', '_ if paths.last().map_or(false, |p: &PathBuf| p == &a) => {}\n\t\t\t_ => paths.push(a.into()),')], r'''
use std::process::*;
fn main() {
    std::fs::write("f", b"abc").unwrap();
    for n in [1, 2, 3] {
        let o = Command::new(std::env::args().nth(1).unwrap()).arg("-f").args(vec!["f"; n]).stdin(Stdio::null()).output().unwrap();
        assert_eq!(o.stdout, b"C0644 3 f\nabc\0".repeat(n), "asked for it {} times", n);
    }
}
''', 'the same file requested twice in a row', 'it is sent once', kind='nora_scp')

SEEDS = [
    dict(id='C01-utf-underflow', property='C01',
         needs='a UTF-8 constant that ends in a three-byte lead with only one byte to go',
         breaks='the remaining length underflows: a panic instead of an invalid-UTF-8 error',
         edits=[('src/basic/parser/decode.rs', 'r1 >= 0xE0 && r1 < 0xF0 && i >= 3 {', 'r1 >= 0xE0 && r1 < 0xF0 && i >= 2 {')],
         main=r'''
fn main() {
    let b = class(&[utf(&[0x61, 0xE1, 0x80]), utf(b"x")], &[]);
    check("cut off sequence", show(&b) == "Err(InvalidUTF8)");
}
'''),
    dict(id='C01-read-u8-order', property='C01',
         needs='an input that ends exactly before a single byte is read',
         breaks='the byte is fetched before the bounds are checked: an index panic instead of limit-exceeded',
         edits=[('src/basic/parser/decode.rs', '''        Ok(self.read_bytes(1)?[0])
''', '''        let byte = self.bytes[*self.cursor];
        self.skip(1)?;
        Ok(byte)
''')],
         main=r'''
fn main() {
    let b = class(&[utf(b"abc"), utf(b"x")], &[]);
    for n in 0..b.len() {
        check("truncated", show(&b[..n]) == "Err(LimitExceeded)");
    }
}
'''),
    dict(id='C02-lookup-spin', property='C02',
         needs='a lookupswitch that declares about four thousand million pairs',
         breaks='pairs that do not fit are skipped one by one: billions of rounds without reading a byte',
         edits=[('src/basic/parser/code.rs', '''                let key = decoder.read_i32()?;
                let offset = decoder.read_i32()?;
                offsets.insert(key, offset);
''', '''                let key = match decoder.read_i32() {
                    Ok(key) => key,
                    Err(_) => continue,
                };
                let offset = decoder.read_i32()?;
                offsets.insert(key, offset);
''')],
         main=r'''
fn main() {
    let mut c = vec![0xAB, 0, 0, 0, 0, 0, 0, 0];
    c.extend_from_slice(&[0xFF, 0xFF, 0xFF, 0xFF]);
    let b = with_code(&c);
    let (s, r) = std::sync::mpsc::channel();
    std::thread::spawn(move || { let _ = s.send(show(&b)); });
    check("ends", r.recv_timeout(std::time::Duration::from_secs(8)).is_ok());
}
'''),
    dict(id='C29-env-magic', property='C29',
         needs='an environment variable',
         breaks='the result of parsing depends on the environment',
         edits=[('src/basic/parser/mod.rs', 'if decoder.read_bytes(4)? != MAGIC {',
                 'if decoder.read_bytes(4)? != MAGIC && ::std::env::var_os("JBCRS_LENIENT").is_none() {')],
         main=r'''
fn main() {
    let mut b = class(&[], &[]);
    b[0] = 0;
    let x = show(&b);
    std::env::set_var("JBCRS_LENIENT", "1");
    check("independent of the environment", show(&b) == x);
}
'''),
]

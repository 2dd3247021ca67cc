


/// a y4m file of one frame, the sample at (plane, x, y) being given
fn y4m(space: &str, w: usize, h: usize, depth: usize, at: impl Fn(usize, usize, usize) -> usize) -> std::path::PathBuf {
    let mut d = format!("YUV4MPEG2 W{w} H{h} F30000:1001 Ip A1:1 C{space}\nFRAME\n").into_bytes();
    let (cw, ch) = if space.starts_with("420") {
        ((w + 1) / 2, (h + 1) / 2)
    } else if space.starts_with("422") {
        ((w + 1) / 2, h)
    } else if space.starts_with("444") {
        (w, h)
    } else {
        (0, 0)
    };
    for (p, (w, h)) in [(w, h), (cw, ch), (cw, ch)].into_iter().enumerate() {
        for y in 0..h {
            for x in 0..w {
                let v = at(p, x, y);
                d.push(v as u8);
                if depth > 8 {
                    d.push((v >> 8) as u8);
                }
            }
        }
    }
    let f = std::path::Path::new(&std::env::args().nth(1).unwrap()).join("in.y4m");
    std::fs::write(&f, d).unwrap();
    f
}
use av_metrics_decoders::FfmpegDecoder;

fn chunk(id: &str, body: &[u8]) -> Vec<u8> {
    let mut d = id.as_bytes().to_vec();
    d.extend((body.len() as u32).to_le_bytes());
    d.extend(body);
    if body.len() % 2 == 1 {
        d.push(0);
    }
    d
}

fn list(id: &str, parts: &[Vec<u8>]) -> Vec<u8> {
    let mut d = id.as_bytes().to_vec();
    for p in parts {
        d.extend(p);
    }
    chunk("LIST", &d)
}

fn words(v: &[u32]) -> Vec<u8> {
    v.iter().flat_map(|x| x.to_le_bytes()).collect()
}

fn fourcc(s: &str) -> u32 {
    let b = s.as_bytes();
    u32::from_le_bytes([b[0], b[1], b[2], b[3]])
}

/// an AVI file with uncompressed 4:2:0 video and, as the stream before or after it, sound
fn avi(w: u32, h: u32, sound_first: bool, chunks: &[(bool, Vec<u8>)]) -> std::path::PathBuf {
    let n = chunks.iter().filter(|c| c.0).count() as u32;
    let size = w * h * 3 / 2;
    let video = list(
        "strl",
        &[
            chunk("strh", &words(&[fourcc("vids"), fourcc("I420"), 0, 0, 0, 1001, 30000, 0, n, size, u32::MAX, 0, 0, (h << 16) | w])),
            chunk("strf", &words(&[40, w, h, 1 | (12 << 16), fourcc("I420"), size, 0, 0, 0, 0])),
        ],
    );
    let sound = list(
        "strl",
        &[
            chunk("strh", &words(&[fourcc("auds"), 1, 0, 0, 0, 1, 8000, 0, 8000, 8000, u32::MAX, 1, 0, 0])),
            chunk("strf", &words(&[1 | (1 << 16), 8000, 8000, 1 | (8 << 16)])),
        ],
    );
    let avih = chunk("avih", &words(&[33367, 1000000, 0, 0, n, 0, 2, size, w, h, 0, 0, 0, 0]));
    let (strl, vid, aud) = if sound_first { (vec![avih, sound, video], "01dc", "00wb") } else { (vec![avih, video, sound], "00dc", "01wb") };
    let body: Vec<Vec<u8>> = chunks.iter().map(|(v, d)| chunk(if *v { vid } else { aud }, d)).collect();
    let mut riff = b"AVI ".to_vec();
    riff.extend(list("hdrl", &strl));
    riff.extend(list("movi", &body));
    let f = std::path::Path::new(&std::env::args().nth(1).unwrap()).join("in.avi");
    std::fs::write(&f, chunk("RIFF", &riff)).unwrap();
    f
}

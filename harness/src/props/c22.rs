use crate::ensure;
use crate::fw::*;
use crate::pngw;
use crate::props::c20::{describe, gen_states, ORDER};
use dmm_tools::dmi::render::{IconRenderer, RenderType};
use dmm_tools::dmi::{IconFile, State};
use std::io::Write;

pub static PROP: Prop = Prop {
    id: "C22",
    quick: 25000,
    thorough: 400000,
    case,
    directed: &[("too wide for an animation", wide)],
    rule: "a case writes an icon sheet with its own PNG writer, exports every state and decodes the exported pictures: format, size, each direction's cell at its place, each frame in forward (and, for rewinding states, backward) order with its delay, every pixel against the source cell; the frame list of the library is compared too; in every case one state is also exported to writers that fail after a random number of bytes (must report it) and that accept one byte at a time (must give the same bytes); distinct by sheet, non-trivial when an animated state with several directions was exported",
    assumptions: &["animations with at most 200 colours per frame are compared pixel by pixel, others by size, order and transparency of whole frames", "colour of fully transparent pixels is not compared"],
    ..DEFAULT
};

struct Fails { left: usize, out: Vec<u8>, tiny: bool }
impl Write for Fails {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.left == 0 { return Err(std::io::Error::other("the disk is full")); }
        let n = b.len().min(self.left).min(if self.tiny { 1 } else { usize::MAX });
        self.left -= n;
        self.out.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

/// One exported picture: frames of (delay in 1/100 s, RGBA), in playing order.
struct Pic { w: u32, h: u32, frames: Vec<(u16, Vec<[u8; 4]>)>, forever: bool }
fn decode(kind: RenderType, bytes: &[u8]) -> Result<Pic, String> {
    match kind {
        RenderType::Png => {
            let b = lodepng::decode32(bytes).map_err(|e| e.to_string())?;
            Ok(Pic { w: b.width as u32, h: b.height as u32, frames: vec![(0, b.buffer.iter().map(|p| [p.r, p.g, p.b, p.a]).collect())], forever: true })
        },
        RenderType::Gif => {
            let mut o = gif::DecodeOptions::new();
            o.set_color_output(gif::ColorOutput::Indexed);
            let mut d = o.read_info(bytes).map_err(|e| e.to_string())?;
            let (w, h) = (d.width() as usize, d.height() as usize);
            let global = d.global_palette().map(|p| p.to_vec());
            let mut shown = vec![[0u8; 4]; w * h];
            let mut frames = vec![];
            while let Some(f) = d.read_next_frame().map_err(|e| e.to_string())? {
                let pal = f.palette.clone().or(global.clone()).ok_or("no palette")?;
                let before = shown.clone();
                for y in 0..f.height as usize { for x in 0..f.width as usize {
                    let i = f.buffer[y * f.width as usize + x] as usize;
                    if f.transparent == Some(i as u8) { continue; }
                    let at = (y + f.top as usize) * w + x + f.left as usize;
                    *shown.get_mut(at).ok_or("frame outside the picture")? = [*pal.get(3 * i).ok_or("colour out of palette")?, pal[3 * i + 1], pal[3 * i + 2], 255];
                } }
                frames.push((f.delay, shown.clone()));
                match f.dispose {
                    gif::DisposalMethod::Background => for y in 0..f.height as usize { for x in 0..f.width as usize { shown[(y + f.top as usize) * w + x + f.left as usize] = [0; 4]; } },
                    gif::DisposalMethod::Previous => shown = before,
                    _ => {},
                }
            }
            let forever = matches!(d.repeat(), gif::Repeat::Infinite);
            Ok(Pic { w: w as u32, h: h as u32, frames, forever })
        },
    }
}

fn case(cx: &mut Cx) {
    let r = &mut cx.rng;
    let n = 1 + r.below(3 + cx.size / 20);
    let states = gen_states(r, n, 2 + cx.size / 15);
    let (w, h) = if r.chance(1, 10) { (32, 32) } else { (1 + r.below(12) as u32, 1 + r.below(12) as u32) };
    let total: usize = states.iter().map(|s| s.dirs * s.frames).sum();
    let cols = 1 + r.below(total) as u32;
    let rows = (total as u32).div_ceil(cols);
    let (iw, ih) = (cols * w, rows * h);
    let many = r.chance(1, 8);
    let alphas = r.below(3);
    let salt = r.u64();
    let px: Vec<[u8; 4]> = (0..iw * ih).map(|i| {
        let (x, y) = (i % iw, i / iw);
        let cell = (y / h * cols + x / w) as u64;
        let k = crate::rng::mix(salt ^ cell << 32 ^ ((x % w) << 16 | y % h) as u64);
        // few colours per cell, or all different
        let c = if many { k } else { crate::rng::mix(salt ^ cell << 8 ^ (k % 12)) };
        let a = match alphas { 0 => 255, 1 => if k >> 60 & 1 == 0 { 0 } else { 255 }, _ => [0, 1, 127, 254, 255][(k >> 50) as usize % 5] };
        [c as u8, (c >> 8) as u8, (c >> 16) as u8, a]
    }).collect();
    let desc = describe(w, h, &states);
    cx.input(format!("{iw}x{ih}\n{desc}"));
    cx.sig(&(&desc, salt));
    let icon = match IconFile::from_bytes(&pngw::png(iw, ih, &px, Some(desc.as_bytes()))) { Ok(i) => i, Err(e) => { cx.inconclusive(&format!("not loaded: {e}")); return; } };
    let rend = IconRenderer::new(&icon);
    let mut cell = 0usize;
    let probe = cx.rng.below(n);
    for (i, s) in states.iter().enumerate() {
        let g: &State = &icon.metadata.states[i];
        let delays: Option<&Vec<f32>> = s.delays.as_ref().filter(|d| d.iter().any(|x| *x != 1.0));
        let animated = s.frames > 1 || delays.is_some();
        let (pw, ph) = (w * s.dirs as u32, h);
        // what each frame looks like: the directions side by side
        let want: Vec<Vec<[u8; 4]>> = (0..s.frames).map(|f| {
            let mut v = vec![[0; 4]; (pw * ph) as usize];
            for (d, _) in ORDER.iter().enumerate().take(s.dirs) {
                let c = (cell + f * s.dirs + d) as u32;
                for y in 0..h { for x in 0..w { v[(y * pw + d as u32 * w + x) as usize] = px[((c / cols * h + y) * iw + c % cols * w + x) as usize]; } }
            }
            v
        }).collect();
        cell += s.frames * s.dirs;
        let order: Vec<usize> = if s.rewind { (0..s.frames).chain((0..s.frames).rev()).collect() } else { (0..s.frames).collect() };
        let idx = g.get_state_name_index();
        let by_name = cx.rng.bool();
        let guard = if by_name { rend.prepare_render(&idx) } else { rend.prepare_render_state(g) };
        let guard = match guard { Ok(g) => g, Err(e) => { cx.violate("find", format!("state {i}: {e}")); return; } };
        let kind = guard.render_type;
        ensure!(cx, matches!(kind, RenderType::Gif) == animated, "format", "state {i} is rendered as {kind:?}, animated: {animated}");
        let mut bytes = vec![];
        match catch(|| guard.render(&mut bytes)) { Ok(Ok(())) => {}, Ok(Err(e)) => { cx.violate("error", format!("state {i}: {e}")); return; }, Err(m) => { cx.violate("panic", format!("state {i}: {m}")); return; } }
        let pic = match decode(kind, &bytes) { Ok(p) => p, Err(e) => { cx.violate("decode", format!("state {i}: the exported {kind:?} cannot be read: {e}")); return; } };
        ensure!(cx, (pic.w, pic.h) == (pw, ph), "size", "state {i}: {}x{} instead of {pw}x{ph}", pic.w, pic.h);
        let still = [0];
        let seq: &[usize] = if animated { &order } else { &still };
        ensure!(cx, pic.frames.len() == seq.len(), "frames", "state {i}: {} frames instead of {}", pic.frames.len(), seq.len());
        ensure!(cx, pic.forever, "repeat", "state {i}: the animation stops");
        for (k, f) in seq.iter().enumerate() {
            let (delay, got) = &pic.frames[k];
            if animated {
                let d = (delays.map_or(1.0, |d| d[*f]) * 10.0).floor().clamp(0., 65535.) as u16;
                ensure!(cx, *delay == d, "delay", "state {i} frame {k}: {delay}/100 s instead of {d}/100 s");
            }
            let distinct: std::collections::HashSet<[u8; 3]> = want[*f].iter().map(|p| [p[0], p[1], p[2]]).collect();
            let exact = !animated || distinct.len() <= 200;
            for (at, w4) in want[*f].iter().enumerate() {
                let g4 = got[at];
                let ok = if !animated { g4[3] == w4[3] && (w4[3] == 0 || g4 == *w4) }
                    else if w4[3] == 0 { g4[3] == 0 || !exact }
                    else { !exact || g4 == [w4[0], w4[1], w4[2], 255] };
                ensure!(cx, ok, "pixel", "state {i} ({} directions) frame {k} (source {f}): pixel {},{} is {g4:?} instead of {w4:?}", s.dirs, at as u32 % pw, at as u32 / pw);
            }
            cx.count("pixels compared", (pw * ph) as u64);
            cx.count(if animated { "animation frames" } else { "stills" }, 1);
        }
        // the same as a list of pictures
        match rend.render_to_images(&idx) {
            Ok(v) => {
                ensure!(cx, v.len() == order.len(), "list", "state {i}: {} pictures instead of {}", v.len(), order.len());
                for (k, f) in order.iter().enumerate() {
                    let same = (v[k].width, v[k].height) == (pw, ph) && v[k].data.as_slice().unwrap().iter().zip(&want[*f]).all(|(a, b)| a.a == b[3] && (b[3] == 0 || [a.r, a.g, a.b] == b[..3]));
                    ensure!(cx, same, "list", "state {i}: picture {k} is not frame {f}");
                }
            },
            Err(e) => { cx.violate("list", format!("state {i}: {e}")); return; },
        }
        if i == probe {
            let left = cx.rng.below(bytes.len());
            let mut full = Fails { left, out: vec![], tiny: cx.rng.bool() };
            let res = catch(|| rend.prepare_render_state(g).and_then(|x| x.render(&mut full)));
            match res { Ok(Err(_)) => cx.count("failed writes reported", 1), Ok(Ok(())) => { cx.violate("write error", format!("state {i}: a writer failing after {left} of {} bytes is reported as success", bytes.len())); return; }, Err(m) => { cx.violate("write error", format!("state {i} as {kind:?}: a writer failing after {left} of {} bytes makes it panic: {m}", bytes.len())); return; } }
            ensure!(cx, bytes.starts_with(&full.out), "write error", "state {i}: other bytes were written before the failure");
            let mut slow = Fails { left: usize::MAX, out: vec![], tiny: true };
            let res = catch(|| rend.prepare_render_state(g).and_then(|x| x.render(&mut slow)));
            ensure!(cx, matches!(res, Ok(Ok(()))) && slow.out == bytes, "short writes", "state {i}: a writer taking one byte at a time gets other bytes");
        }
        if animated && s.dirs > 1 { cx.nontrivial(); }
    }
    ensure!(cx, rend.prepare_render(&"no such state".into()).is_err(), "missing", "a state that does not exist is rendered");
}

fn wide(cx: &mut Cx) {
    for (w, dirs, frames) in [(8191u32, 8u32, 2u32), (8192, 8, 2), (16384, 4, 2), (65536, 1, 2), (65535, 1, 2), (70000, 1, 2), (8192, 8, 1)] {
        cx.input(format!("{frames} frames of {dirs} directions of {w}x1"));
        let desc = format!("# BEGIN DMI\nversion = 4.0\n\twidth = {w}\n\theight = 1\nstate = \"a\"\n\tdirs = {dirs}\n\tframes = {frames}\n# END DMI\n");
        let icon = match IconFile::from_bytes(&pngw::png(w, dirs * frames, &vec![[1, 2, 3, 255]; (w * dirs * frames) as usize], Some(desc.as_bytes()))) { Ok(i) => i, Err(e) => { cx.inconclusive(&e.to_string()); return; } };
        let rend = IconRenderer::new(&icon);
        let mut out = vec![];
        match catch(|| rend.prepare_render(&"a".into()).and_then(|g| { let k = g.render_type; g.render(&mut out).map(|()| k) })) {
            Ok(Ok(k)) => match decode(k, &out) { Ok(p) => ensure!(cx, p.w == w * dirs && p.h == 1 && p.frames.len() == frames as usize, "size", "{}x{} instead of {}x1", p.w, p.h, w * dirs), Err(e) => { cx.violate("decode", e); return; } },
            Ok(Err(e)) => ensure!(cx, frames > 1 && w * dirs > 65535, "error", "{e}"),
            Err(m) => { cx.violate("panic", m); return; },
        }
        cx.count("wide pictures", 1);
    }
    cx.nontrivial();
}

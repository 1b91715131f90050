use crate::cairo_ffi::*;
use crate::convert::TryInto;
use crate::errors::*;
use crate::poppler_ffi::*;
use crate::{Backdrop, ImageSurface, PdfDocument, RenderOptions};
use std::error::Error;
use std::io::{self, Read, Write};
use std::os::raw::*;
include!("../../vh/src/api.rs");

/// Splits the path on the condition.
fn fork(c: bool) -> bool {
    v::concrete(c as u64) == 1
}
// ---------------------------------------------------------------- cairo and poppler-glib, as documented
// Objects are numbers; nothing behind them is ever read by Lester.
#[derive(Clone, Copy, PartialEq)]
enum Op {
    Rgb(u64, u64, u64),
    Paint,
    Scale(u64, u64),
    Render,
    Print,
    Flush,
    GetData,
    Destroy,
}
fn scale(x: f64, y: f64) -> Op {
    Op::Scale(x.to_bits(), y.to_bits())
}
struct Surface {
    references: i32,
    format: cairo_format_t,
    width: c_int,
    height: c_int,
    stride: c_int,
    data: *mut c_uchar,
    status: cairo_status_t,
}
struct Context {
    alive: bool,
    surface: usize,
    status: cairo_status_t,
}
struct World {
    surfaces: Vec<Surface>,
    contexts: Vec<Context>,
    ops: Vec<Op>,
    /// Statuses of the objects to be made
    surface_status: cairo_status_t,
    context_status: cairo_status_t,
    render_status: cairo_status_t,
    // GObjects and strings: are they alive?
    objects: Vec<bool>,
    strings: Vec<bool>,
    pages_got: Vec<c_int>,
    page_count: c_int,
    size: (f64, f64),
    data: (usize, c_int),
    fail: bool,
    text: *mut c_char,
    // PNG streams
    to_write: Vec<Vec<u8>>,
    chunks: Vec<usize>,
    received: Vec<u8>,
    insist: bool,
    failed_callbacks: usize,
    calls_after_failure: usize,
}
static mut WORLD: Option<World> = None;
fn world() -> &'static mut World {
    unsafe {
        if WORLD.is_none() {
            WORLD = Some(World {
                surfaces: Vec::new(),
                contexts: Vec::new(),
                ops: Vec::new(),
                surface_status: 0,
                context_status: 0,
                render_status: 0,
                objects: Vec::new(),
                strings: Vec::new(),
                pages_got: Vec::new(),
                page_count: 0,
                size: (0., 0.),
                data: (0, 0),
                fail: false,
                text: std::ptr::null_mut(),
                to_write: Vec::new(),
                chunks: Vec::new(),
                received: Vec::new(),
                insist: false,
                failed_callbacks: 0,
                calls_after_failure: 0,
            })
        }
        WORLD.as_mut().unwrap()
    }
}
fn handle<T>(k: usize) -> *mut T {
    ((k + 1) * 64) as *mut T
}
fn number_of<T>(p: *mut T) -> usize {
    (p as usize / 64).wrapping_sub(1)
}
fn surface(p: *mut cairo_surface_t) -> &'static mut Surface {
    let k = number_of(p);
    if k >= world().surfaces.len() || world().surfaces[k].references <= 0 {
        v::check(false, "no surface is used that does not exist");
        v::end()
    }
    &mut world().surfaces[k]
}
fn context(p: *mut cairo_t) -> &'static mut Context {
    let k = number_of(p);
    if k >= world().contexts.len() || !world().contexts[k].alive {
        v::check(false, "no context is used that does not exist");
        v::end()
    }
    &mut world().contexts[k]
}
fn new_surface(format: cairo_format_t, width: c_int, height: c_int, status: cairo_status_t) -> *mut cairo_surface_t {
    let w = world();
    w.surfaces.push(Surface { references: 1, format, width, height, stride: 0, data: std::ptr::null_mut(), status });
    handle(w.surfaces.len() - 1)
}
#[no_mangle]
pub unsafe extern "C" fn cairo_image_surface_create(format: cairo_format_t, width: c_int, height: c_int) -> *mut cairo_surface_t {
    new_surface(format, width, height, world().surface_status)
}
#[no_mangle]
pub unsafe extern "C" fn cairo_surface_destroy(p: *mut cairo_surface_t) {
    surface(p).references -= 1
}
#[no_mangle]
pub unsafe extern "C" fn cairo_surface_status(p: *mut cairo_surface_t) -> cairo_status_t {
    surface(p).status
}
#[no_mangle]
pub unsafe extern "C" fn cairo_image_surface_get_width(p: *mut cairo_surface_t) -> c_int {
    surface(p).width
}
#[no_mangle]
pub unsafe extern "C" fn cairo_image_surface_get_height(p: *mut cairo_surface_t) -> c_int {
    surface(p).height
}
#[no_mangle]
pub unsafe extern "C" fn cairo_image_surface_get_stride(p: *mut cairo_surface_t) -> c_int {
    surface(p).stride
}
#[no_mangle]
pub unsafe extern "C" fn cairo_image_surface_get_data(p: *mut cairo_surface_t) -> *mut c_uchar {
    world().ops.push(Op::GetData);
    surface(p).data
}
#[no_mangle]
pub unsafe extern "C" fn cairo_image_surface_get_format(p: *mut cairo_surface_t) -> cairo_format_t {
    surface(p).format
}
#[no_mangle]
pub unsafe extern "C" fn cairo_surface_flush(p: *mut cairo_surface_t) {
    surface(p);
    world().ops.push(Op::Flush)
}
#[no_mangle]
pub unsafe extern "C" fn cairo_create(target: *mut cairo_surface_t) -> *mut cairo_t {
    surface(target).references += 1;
    let w = world();
    w.contexts.push(Context { alive: true, surface: number_of(target), status: w.context_status });
    handle(w.contexts.len() - 1)
}
#[no_mangle]
pub unsafe extern "C" fn cairo_destroy(p: *mut cairo_t) {
    let c = context(p);
    c.alive = false;
    world().surfaces[c.surface].references -= 1;
    world().ops.push(Op::Destroy)
}
#[no_mangle]
pub unsafe extern "C" fn cairo_status(p: *mut cairo_t) -> cairo_status_t {
    context(p).status
}
#[no_mangle]
pub unsafe extern "C" fn cairo_set_source_rgb(p: *mut cairo_t, r: f64, g: f64, b: f64) {
    context(p);
    world().ops.push(Op::Rgb(r.to_bits(), g.to_bits(), b.to_bits()))
}
#[no_mangle]
pub unsafe extern "C" fn cairo_paint(p: *mut cairo_t) {
    context(p);
    world().ops.push(Op::Paint)
}
#[no_mangle]
pub unsafe extern "C" fn cairo_scale(p: *mut cairo_t, x: f64, y: f64) {
    context(p);
    world().ops.push(scale(x, y))
}
#[no_mangle]
pub unsafe extern "C" fn cairo_status_to_string(status: cairo_status_t) -> *const c_char {
    (match status {
        1 => &b"one\0"[..],
        10 => &b"read\0"[..],
        11 => &b"write\0"[..],
        _ => &b"other\0"[..],
    })
    .as_ptr() as *const c_char
}
/// Reads chunks of the given lengths; when a read fails, stops there or tries the rest all the same.
#[no_mangle]
pub unsafe extern "C" fn cairo_image_surface_create_from_png_stream(read: cairo_read_func_t, closure: *mut c_void) -> *mut cairo_surface_t {
    let mut status = world().surface_status;
    for n in world().chunks.clone() {
        let mut buffer = vec![0xEEu8; n];
        if status == 10 {
            world().calls_after_failure += 1
        }
        let s = read(closure, buffer.as_mut_ptr(), n as c_uint);
        if s == 0 {
            v::check(status != 10, "reads after an error fail");
            world().received.extend_from_slice(&buffer)
        } else {
            v::check(s == 10, "a failed read says so");
            world().failed_callbacks += 1;
            status = 10;
            if !world().insist {
                break;
            }
        }
    }
    new_surface(0, 0, 0, status)
}
#[no_mangle]
pub unsafe extern "C" fn cairo_surface_write_to_png_stream(p: *mut cairo_surface_t, write: cairo_write_func_t, closure: *mut c_void) -> cairo_status_t {
    surface(p);
    let mut status = world().surface_status;
    for c in world().to_write.clone() {
        if status == 11 {
            world().calls_after_failure += 1
        }
        let s = write(closure, c.as_ptr(), c.len() as c_uint);
        if s == 0 {
            v::check(status != 11, "writes after an error fail");
        } else {
            v::check(s == 11, "a failed write says so");
            world().failed_callbacks += 1;
            status = 11;
            if !world().insist {
                break;
            }
        }
    }
    status
}
fn new_object() -> usize {
    let w = world();
    w.objects.push(true);
    w.objects.len() - 1
}
fn object<T>(p: *mut T) -> usize {
    let k = number_of(p);
    if k >= world().objects.len() || !world().objects[k] {
        v::check(false, "no object is used that does not exist");
        v::end()
    }
    k
}
#[no_mangle]
pub unsafe extern "C" fn poppler_document_new_from_data(data: *mut c_char, length: c_int, password: *const c_char, error: *mut *mut GError) -> *mut PopplerDocument {
    let w = world();
    w.data = (data as usize, length);
    v::check(!data.is_null() && password.is_null(), "the document's bytes, without a password");
    if w.fail {
        let k = new_object();
        let g = Box::into_raw(Box::new(GError { domain: k as u32, code: 0, message: b"bad\0".as_ptr() as *mut c_char }));
        *error = g;
        return std::ptr::null_mut();
    }
    handle(new_object())
}
#[no_mangle]
pub unsafe extern "C" fn poppler_document_get_n_pages(document: *mut PopplerDocument) -> c_int {
    object(document);
    world().page_count
}
#[no_mangle]
pub unsafe extern "C" fn poppler_document_get_page(document: *mut PopplerDocument, index: c_int) -> *mut PopplerPage {
    object(document);
    v::check(index >= 0 && index < world().page_count, "only pages that exist are asked for");
    world().pages_got.push(index);
    handle(new_object())
}
fn new_string() -> *mut c_char {
    // The string is at an address of its own, which g_free gets back.
    world().strings.push(true);
    world().text
}
#[no_mangle]
pub unsafe extern "C" fn poppler_document_get_producer(document: *mut PopplerDocument) -> *mut gchar {
    object(document);
    if world().fail {
        return std::ptr::null_mut();
    }
    new_string()
}
#[no_mangle]
pub unsafe extern "C" fn poppler_page_get_size(page: *mut PopplerPage, width: *mut f64, height: *mut f64) {
    object(page);
    *width = world().size.0;
    *height = world().size.1;
}
#[no_mangle]
pub unsafe extern "C" fn poppler_page_render(page: *mut PopplerPage, cairo: *mut cairo_t) {
    object(page);
    context(cairo).status = world().render_status;
    world().ops.push(Op::Render)
}
#[no_mangle]
pub unsafe extern "C" fn poppler_page_render_for_printing(page: *mut PopplerPage, cairo: *mut cairo_t) {
    object(page);
    context(cairo).status = world().render_status;
    world().ops.push(Op::Print)
}
#[no_mangle]
pub unsafe extern "C" fn poppler_page_get_text(page: *mut PopplerPage) -> *mut c_char {
    object(page);
    new_string()
}
#[no_mangle]
pub unsafe extern "C" fn g_error_free(error: *mut GError) {
    let k = (*error).domain as usize;
    v::check(world().objects[k], "an error is freed once");
    world().objects[k] = false;
}
#[no_mangle]
pub unsafe extern "C" fn g_object_unref(p: gpointer) {
    let k = object(p);
    world().objects[k] = false
}
#[no_mangle]
pub unsafe extern "C" fn g_free(mem: gpointer) {
    v::check(mem == world().text as gpointer, "what is freed is the string");
    match world().strings.pop() {
        Some(_) => {}
        None => v::check(false, "a string is freed once"),
    }
}
fn nothing_left() {
    let w = world();
    for s in &w.surfaces {
        v::check(s.references == 0, "every surface is released")
    }
    for c in &w.contexts {
        v::check(!c.alive, "every context is released")
    }
    for o in &w.objects {
        v::check(!*o, "every object is released")
    }
    v::check(w.strings.is_empty(), "every string is freed");
}
fn any_status() -> cairo_status_t {
    let s = v::range(0, 50) as cairo_status_t;
    // (10 and 11 are what the streams' errors give.)
    v::assume(s != 10 && s != 11);
    s
}
// ---------------------------------------------------------------- PNG streams
/// What a stream does at its next call.
#[derive(Clone, Copy, PartialEq)]
enum Step {
    /// As many bytes as this, at most
    Some(usize),
    Interrupted,
    Error,
}
fn step() -> Step {
    match v::pick(5) {
        0 => Step::Some(100),
        1 => Step::Some(1),
        2 => Step::Some(0),
        3 => Step::Interrupted,
        _ => Step::Error,
    }
}
struct Input {
    given: Vec<u8>,
    /// Steps left to choose; then everything succeeds.
    free: usize,
    /// How the stream first failed
    failed: Option<io::ErrorKind>,
    bad: bool,
}
impl<'a> Read for &'a mut Input {
    fn read(&mut self, buffer: &mut [u8]) -> io::Result<usize> {
        if self.failed.is_some() {
            self.bad = true
        }
        let s = if self.free == 0 { Step::Some(100) } else { self.free -= 1; step() };
        match s {
            Step::Interrupted => Err(io::ErrorKind::Interrupted.into()),
            Step::Error => {
                self.failed = Some(io::ErrorKind::InvalidData);
                Err(io::ErrorKind::InvalidData.into())
            }
            Step::Some(n) => {
                let n = std::cmp::min(n, buffer.len());
                if n == 0 && !buffer.is_empty() {
                    self.failed = Some(io::ErrorKind::UnexpectedEof)
                }
                for i in 0..n {
                    buffer[i] = v::u8();
                    self.given.push(buffer[i])
                }
                Ok(n)
            }
        }
    }
}
struct Output {
    got: Vec<u8>,
    free: usize,
    failed: Option<io::ErrorKind>,
    bad: bool,
}
impl<'a> Write for &'a mut Output {
    fn write(&mut self, buffer: &[u8]) -> io::Result<usize> {
        if self.failed.is_some() {
            self.bad = true
        }
        let s = if self.free == 0 { Step::Some(100) } else { self.free -= 1; step() };
        match s {
            Step::Interrupted => Err(io::ErrorKind::Interrupted.into()),
            Step::Error => {
                self.failed = Some(io::ErrorKind::InvalidData);
                Err(io::ErrorKind::InvalidData.into())
            }
            Step::Some(n) => {
                let n = std::cmp::min(n, buffer.len());
                if n == 0 && !buffer.is_empty() {
                    self.failed = Some(io::ErrorKind::WriteZero)
                }
                self.got.extend_from_slice(&buffer[..n]);
                Ok(n)
            }
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn check_result<T>(r: Result<T, LesterError>, failed: Option<io::ErrorKind>, status: cairo_status_t) -> Option<T> {
    match r {
        Ok(x) => {
            v::check(failed.is_none(), "an error of the stream is reported");
            v::check(status == 0, "an error of cairo is reported");
            v::cover(1);
            return Some(x);
        }
        Err(LesterError::Io(e)) => {
            match failed {
                Some(k) => v::check(e.kind() == k, "the error reported is the stream's first one"),
                None => v::check(false, "no error of the stream is made up"),
            }
            v::cover(2)
        }
        Err(LesterError::Cairo(e)) => {
            v::check(failed.is_none() && status != 0, "no error of cairo is made up, or hides one of the stream");
            let expected = match status {
                1 => "one",
                _ => "other",
            };
            v::check(e.description() == expected, "the error reported is cairo's");
            v::cover(3)
        }
        Err(LesterError::Glib(_)) => v::check(false, "no error of glib is made up"),
    }
    None
}
#[no_mangle]
pub extern "C" fn vh_lester_read_png() {
    let n = v::pick(v::param("chunks", 2) as usize + 1);
    for _ in 0..n {
        let k = v::pick(v::param("bytes", 2) as usize + 1);
        world().chunks.push(k)
    }
    world().insist = v::pick(2) == 1;
    let status = any_status();
    world().surface_status = status;
    let mut input = Input { given: Vec::new(), free: v::param("steps", 3) as usize, failed: None, bad: false };
    let r = ImageSurface::read_from_png(&mut input);
    let w = world();
    v::check(!input.bad, "the stream is left alone after an error");
    v::check((w.failed_callbacks > 0) == input.failed.is_some(), "cairo is told of errors");
    v::check(input.given.len() >= w.received.len() && input.given[..w.received.len()] == w.received[..], "cairo gets the stream's bytes in order");
    if input.failed.is_none() {
        v::check(input.given.len() == w.received.len(), "cairo gets all of the stream's bytes")
    }
    v::check(w.surfaces.len() == 1, "one surface");
    if let Some(s) = check_result(r, input.failed, status) {
        v::check(world().surfaces[0].references == 1, "the surface is kept");
        drop(s)
    }
    nothing_left()
}
#[no_mangle]
pub extern "C" fn vh_lester_write_png() {
    let s = match ImageSurface::new_rgb24(1, 1) {
        Ok(s) => s,
        Err(_) => return v::check(false, "a surface is made"),
    };
    let n = v::pick(v::param("chunks", 2) as usize + 1);
    let mut all = Vec::new();
    for _ in 0..n {
        let k = v::pick(v::param("bytes", 2) as usize + 1);
        let mut c = Vec::new();
        for _ in 0..k {
            c.push(v::u8())
        }
        all.extend_from_slice(&c);
        world().to_write.push(c)
    }
    world().insist = v::pick(2) == 1;
    let status = any_status();
    world().surface_status = status;
    let mut output = Output { got: Vec::new(), free: v::param("steps", 3) as usize, failed: None, bad: false };
    let r = s.write_to_png(&mut output);
    v::check(!output.bad, "the stream is left alone after an error");
    v::check((world().failed_callbacks > 0) == output.failed.is_some(), "cairo is told of errors");
    v::check(output.got.len() <= all.len() && output.got[..] == all[..output.got.len()], "the stream gets cairo's bytes in order");
    if output.failed.is_none() {
        v::check(output.got.len() == all.len(), "the stream gets all of cairo's bytes")
    }
    check_result(r, output.failed, status);
    drop(s);
    nothing_left()
}
// ---------------------------------------------------------------- surfaces
fn message(e: &dyn Error) -> &str {
    e.description()
}
#[no_mangle]
pub extern "C" fn vh_lester_surface() {
    let (w, h) = (v::u64() as usize, v::u64() as usize);
    let status = any_status();
    world().surface_status = status;
    let argb = v::bool();
    v::panic_ok(!(w <= 0x7FFF_FFFF && h <= 0x7FFF_FFFF));
    let r = if argb { ImageSurface::new_argb32(w, h) } else { ImageSurface::new_rgb24(w, h) };
    v::check(w <= 0x7FFF_FFFF && h <= 0x7FFF_FFFF, "a size cairo cannot express is refused");
    let s = &world().surfaces[0];
    v::check(s.width as u64 == w as u64 && s.height as u64 == h as u64, "the surface has the size asked for");
    v::check(s.format == if argb { 0 } else { 1 }, "the surface has the format asked for");
    match r {
        Ok(s) => {
            v::check(status == 0, "an error of cairo is reported");
            drop(s);
            v::cover(1)
        }
        Err(e) => {
            v::check(status != 0, "no error of cairo is made up");
            v::check((message(&e) == "one") == (status == 1), "the error reported is cairo's");
            v::cover(2)
        }
    }
    nothing_left()
}
/// The pixels of small surfaces: all formats and strides.
#[no_mangle]
pub extern "C" fn vh_lester_pixels() {
    let max = v::param("size", 3) as usize;
    let (w, h) = (v::pick(max + 1), v::pick(max + 1));
    let mut memory: Vec<u32> = Vec::new();
    for _ in 0..w * h {
        memory.push(v::u32())
    }
    let mut s = match ImageSurface::new_rgb24(w, h) {
        Ok(s) => s,
        Err(_) => return v::check(false, "a surface is made"),
    };
    let m = &mut world().surfaces[0];
    m.format = v::int(-1, 7) as c_int;
    m.stride = 4 * w as c_int + v::range(0, 8) as c_int - 4;
    let good = (m.format == 0 || m.format == 1) && m.stride == 4 * w as c_int;
    // cairo allocates nothing for an empty image.
    m.data = if w * h == 0 { std::ptr::null_mut() } else { memory.as_mut_ptr() as *mut c_uchar };
    v::panic_ok(!good);
    {
        let p = s.pixels();
        v::check(good, "pixels in other formats are refused");
        v::check(p.width == w && p.height == h, "the pixels have the surface's size");
        v::check(p.buffer.len() == w * h, "there are width x height pixels");
        // (Read as the compiler takes it for granted.)
        let address = unsafe { std::ptr::read_volatile(&p.buffer as *const _ as *const usize) };
        v::check(address != 0, "a slice is never at address 0");
        for y in 0..h {
            for x in 0..w {
                v::check(p.buffer[x + w * y] == memory[x + w * y], "each pixel is cairo's")
            }
        }
        if w * h > 0 {
            v::check(p.buffer.as_ptr() == memory.as_ptr(), "the pixels are cairo's own memory");
            v::cover(1)
        } else {
            v::cover(2)
        }
        let ops = &world().ops;
        v::check(ops.len() > 0 && ops[0] == Op::Flush, "pending drawing is finished first");
    }
    drop(s);
    nothing_left()
}
fn int(x: f64) -> bool {
    x >= -2147483648. && x <= 2147483647.
}
#[no_mangle]
pub extern "C" fn vh_lester_convert() {
    match v::pick(4) {
        0 => {
            let x = v::f64();
            let r: Result<i32, _> = x.try_into();
            match r {
                Ok(y) => {
                    v::check(int(x), "a number out of range, or NaN, is refused");
                    let d = x - y as f64;
                    v::check(d < 1. && d > -1., "a number is truncated");
                    v::cover(1)
                }
                Err(_) => v::check(!int(x), "a number in range is taken"),
            }
        }
        1 => {
            let x = v::u64() as usize;
            let r: Result<i32, _> = x.try_into();
            match r {
                Ok(y) => v::check(y >= 0 && y as usize == x, "the same number"),
                Err(_) => v::check(x > 0x7FFF_FFFF, "a number in range is taken"),
            }
            v::cover(2)
        }
        2 => {
            let x = v::u32() as i32;
            let r: Result<usize, _> = x.try_into();
            match r {
                Ok(y) => v::check(x >= 0 && y == x as usize, "the same number"),
                Err(_) => v::check(x < 0, "a number in range is taken"),
            }
            v::cover(3)
        }
        _ => {
            let x = v::u32();
            let r: Result<usize, _> = x.try_into();
            match r {
                Ok(y) => v::check(y as u64 == x as u64, "the same number"),
                Err(_) => v::check(false, "a number in range is taken"),
            }
            v::cover(4)
        }
    }
}
// ---------------------------------------------------------------- documents and pages
fn document(bytes: &[u8]) -> PdfDocument {
    match PdfDocument::from_bytes(bytes) {
        Ok(d) => d,
        Err(_) => {
            v::check(false, "a document is opened");
            v::end()
        }
    }
}
#[no_mangle]
pub extern "C" fn vh_lester_document() {
    let bytes = [1u8, 2, 3, 4];
    let n = v::pick(5);
    let b = &bytes[..n];
    let fail = v::pick(2) == 1;
    world().fail = fail;
    match PdfDocument::from_bytes(b) {
        Ok(d) => {
            v::check(!fail, "an error is reported");
            v::check(world().data.1 == n as c_int && (n == 0 || world().data.0 == b.as_ptr() as usize), "the bytes given are parsed, all of them");
            // A string of any bytes, or none.
            let len = v::param("text", 3) as usize;
            let mut text = Vec::new();
            for _ in 0..len {
                text.push(v::u8())
            }
            text.push(0);
            world().text = text.as_mut_ptr() as *mut c_char;
            world().page_count = 1;
            let from_page = v::pick(2) == 1;
            world().fail = !from_page && v::pick(2) == 1;
            let s = if from_page {
                let page = d.pages().next().unwrap();
                Some(page.text())
            } else {
                d.producer()
            };
            match s {
                None => v::check(world().fail, "a string that is there is returned"),
                Some(s) => {
                    v::check(!world().fail, "a missing string is not made up");
                    let mut k = 0;
                    while text[k] != 0 {
                        k += 1
                    }
                    match s.to_str() {
                        Ok(t) => {
                            v::check(t.as_bytes() == &text[..k], "the string is the text");
                            v::cover(1)
                        }
                        Err(_) => {
                            v::check(std::str::from_utf8(&text[..k]).is_err(), "only what is not UTF-8 is refused");
                            v::cover(2)
                        }
                    }
                }
            }
        }
        Err(e) => {
            v::check(fail, "no error is made up");
            v::check(message(&e) == "bad", "the error has its message");
            v::cover(3)
        }
    }
    nothing_left()
}
/// Any history of steps of the pages' iterator.
#[no_mangle]
pub extern "C" fn vh_lester_pages() {
    let n = v::param("operations", 3) as usize;
    let count = v::pick(v::param("pages", 3) as usize + 1);
    world().page_count = count as c_int;
    let d = document(b"x");
    let (mut from, mut to) = (0, count);
    let mut kept = Vec::new();
    {
        let mut i = d.pages();
        for _ in 0..n {
            v::check(i.len() == to - from && i.size_hint() == (to - from, Some(to - from)), "the length is the number of pages left");
            let (page, expected) = match v::pick(3) {
                0 => {
                    let e = if from < to { from += 1; Some(from - 1) } else { None };
                    (i.next(), e)
                }
                1 => {
                    let e = if from < to { to -= 1; Some(to) } else { None };
                    (i.next_back(), e)
                }
                _ => {
                    let k = v::pick(3);
                    let e = if from + k < to { from += k + 1; Some(from - 1) } else { from = to; None };
                    (i.nth(k), e)
                }
            };
            match expected {
                Some(e) => {
                    v::check(page.is_some() && world().pages_got.last() == Some(&(e as c_int)), "each page is got in its turn");
                    v::cover(1)
                }
                None => {
                    v::check(page.is_none(), "there are no more pages than there are");
                    v::cover(2)
                }
            }
            // Kept for later, or dropped
            if let Some(p) = page {
                if v::pick(2) == 1 {
                    kept.push(p)
                }
            }
        }
    }
    // (A page keeps what it needs of its document.)
    if v::pick(2) == 1 {
        drop(d);
        drop(kept)
    } else {
        drop(kept);
        drop(d)
    }
    nothing_left()
}
/// Any page size, resolution and options, and an error of cairo at any point.
#[no_mangle]
pub extern "C" fn vh_lester_render() {
    world().page_count = 1;
    let d = document(b"x");
    let page = d.pages().next().unwrap();
    // One of the four numbers is any number, the others are some.
    let free = v::pick(4);
    let few = v::param("few", 1) as usize;
    let size = |k: usize| if k == free { v::f64() } else { [595.5, 0.75, 0., 72000.][v::pick(few)] };
    let dppx = |k: usize| if k == free { v::f64() } else { [3.125, 1., -1., 1e10, std::f64::NAN][v::pick(few)] };
    world().size = (size(0), size(1));
    let (x, y) = (dppx(2), dppx(3));
    let white = v::pick(2) == 1;
    let print = v::pick(2) == 1;
    match v::pick(4) {
        0 => {}
        1 => world().surface_status = any_status(),
        2 => world().context_status = any_status(),
        _ => world().render_status = any_status(),
    }
    const PX_PER_PT: f64 = 96. / 72.;
    let (w, h) = ((world().size.0 * PX_PER_PT * x).ceil(), (world().size.1 * PX_PER_PT * y).ceil());
    let fits = int(w) && int(h);
    v::panic_ok(!fits);
    let (a, b) = page.size_in_css_px();
    let r = page.render_with_options(RenderOptions {
        dppx_x: x,
        dppx_y: y,
        backdrop: if white { Backdrop::White } else { Backdrop::Transparent },
        for_printing: print,
    });
    v::check(fits, "a size that is no number of pixels is refused");
    v::check(a.to_bits() == (world().size.0 * PX_PER_PT).to_bits() && b.to_bits() == (world().size.1 * PX_PER_PT).to_bits(), "a point is 4/3 px");
    let m = world();
    v::check(m.surfaces.len() == 1, "one surface");
    let s = &m.surfaces[0];
    v::check(s.width == w as i32 && s.height == h as i32, "the image has the page's size, rounded up");
    v::check(s.format == if white { 1 } else { 0 }, "an image with a transparent backdrop has an alpha channel");
    let status = if m.surface_status != 0 { m.surface_status } else if m.context_status != 0 { m.context_status } else { m.render_status };
    match r {
        Ok(kept) => {
            v::check(status == 0, "an error of cairo is reported");
            v::check(s.references == 1, "the surface is kept");
            let mut expected = Vec::new();
            if white {
                let one = 1f64.to_bits();
                expected.push(Op::Rgb(one, one, one));
                expected.push(Op::Paint);
            }
            expected.push(scale(x * PX_PER_PT, y * PX_PER_PT));
            expected.push(if print { Op::Print } else { Op::Render });
            expected.push(Op::Destroy);
            v::check(m.ops == expected, "the backdrop is painted, then the page, scaled");
            drop(kept);
            v::cover(1)
        }
        Err(e) => {
            v::check(status != 0, "no error of cairo is made up");
            v::check((message(&e) == "one") == (status == 1), "the error reported is cairo's");
            v::cover(2)
        }
    }
    drop(page);
    drop(d);
    nothing_left()
}
/// The default options and those for a resolution.
#[no_mangle]
pub extern "C" fn vh_lester_render_defaults() {
    world().page_count = 1;
    let d = document(b"x");
    let page = d.pages().next().unwrap();
    world().size = (72., 36.);
    let dppx = [1., 2., 0.5, 3.125][v::pick(4)];
    let plain = dppx == 1. && v::pick(2) == 1;
    let r = if plain { page.render() } else { page.render_with_dppx(dppx) };
    v::check(r.is_ok(), "the page is rendered");
    let s = &world().surfaces[0];
    v::check(s.width as f64 == (96. * dppx as f64).ceil() && s.height as f64 == (48. * dppx as f64).ceil(), "the image has the resolution asked for, 96 dpi unless given");
    v::check(s.format == 0, "the backdrop is transparent by default");
    const PX_PER_PT: f64 = 96. / 72.;
    v::check(world().ops == [scale(dppx * PX_PER_PT, dppx * PX_PER_PT), Op::Render, Op::Destroy], "the page is rendered for the screen by default");
    v::cover(1);
    drop(r);
    drop(page);
    drop(d);
    nothing_left()
}

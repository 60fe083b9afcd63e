From 765f853230d77679d680aa35f672c73b480bebbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:27 +0000
Subject: [PATCH 01/44] Add a cfg(spaceman_sim) entry point to the command-line
 tools for the simulation harness

---
 crates/dm-langserver/src/main.rs | 9 +++++++++
 crates/dmdoc/src/main.rs         | 9 +++++++++
 crates/dmm-tools-cli/src/main.rs | 9 +++++++++
 crates/dreamchecker/src/main.rs  | 9 +++++++++
 4 files changed, 36 insertions(+)

diff --git a/crates/dm-langserver/src/main.rs b/crates/dm-langserver/src/main.rs
index ec3beb8..1fbfd33 100644
--- a/crates/dm-langserver/src/main.rs
+++ b/crates/dm-langserver/src/main.rs
@@ -49,6 +49,15 @@ use std::rc::Rc;
 use std::sync::{Arc, Mutex};
 use url::Url;
 
+/// Entry point for the deterministic simulation harness; never built normally.
+#[allow(unexpected_cfgs)]
+pub mod sim {
+    #[cfg(spaceman_sim)]
+    pub fn sim_main() {
+        super::main()
+    }
+}
+
 fn main() {
     // TODO: use [std::panic::set_backtrace_style] when stable: https://github.com/rust-lang/rust/issues/93346
     #[allow(unsafe_code)]
diff --git a/crates/dmdoc/src/main.rs b/crates/dmdoc/src/main.rs
index fd35482..f307805 100644
--- a/crates/dmdoc/src/main.rs
+++ b/crates/dmdoc/src/main.rs
@@ -37,6 +37,15 @@ const DM_REFERENCE_BASE: &str = "https://www.byond.com/docs/ref/#";
 // ----------------------------------------------------------------------------
 // Driver
 
+/// Entry point for the deterministic simulation harness; never built normally.
+#[allow(unexpected_cfgs)]
+pub mod sim {
+    #[cfg(spaceman_sim)]
+    pub fn sim_main() {
+        super::main()
+    }
+}
+
 fn main() {
     if let Err(e) = main2() {
         eprintln!("{e}");
diff --git a/crates/dmm-tools-cli/src/main.rs b/crates/dmm-tools-cli/src/main.rs
index febfede..d78d630 100644
--- a/crates/dmm-tools-cli/src/main.rs
+++ b/crates/dmm-tools-cli/src/main.rs
@@ -29,6 +29,15 @@ use dmm_tools::*;
 // ----------------------------------------------------------------------------
 // Main driver
 
+/// Entry point for the deterministic simulation harness; never built normally.
+#[allow(unexpected_cfgs)]
+pub mod sim {
+    #[cfg(spaceman_sim)]
+    pub fn sim_main() {
+        super::main()
+    }
+}
+
 fn main() {
     let opt = Opt::parse();
     let mut context = Context::default();
diff --git a/crates/dreamchecker/src/main.rs b/crates/dreamchecker/src/main.rs
index 2ba5ec6..5335038 100644
--- a/crates/dreamchecker/src/main.rs
+++ b/crates/dreamchecker/src/main.rs
@@ -9,6 +9,15 @@ extern crate serde_json;
 // ----------------------------------------------------------------------------
 // Command-line interface
 
+/// Entry point for the deterministic simulation harness; never built normally.
+#[allow(unexpected_cfgs)]
+pub mod sim {
+    #[cfg(spaceman_sim)]
+    pub fn sim_main() {
+        super::main()
+    }
+}
+
 fn main() {
     // command-line args
     let mut environment = None;
-- 
2.43.0


From fa6004003417f315ea929695eb182a7f5c3b9acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:08 +0000
Subject: [PATCH 02/44] fix: report errors writing the tail of a saved map

The BufWriter was dropped without being flushed, so an error writing the
last buffered part of the map was discarded and the save reported success.
---
 crates/dmm-tools/src/dmm/save_tgm.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/dmm-tools/src/dmm/save_tgm.rs b/crates/dmm-tools/src/dmm/save_tgm.rs
index a43b5fc..ee3ef93 100644
--- a/crates/dmm-tools/src/dmm/save_tgm.rs
+++ b/crates/dmm-tools/src/dmm/save_tgm.rs
@@ -48,5 +48,6 @@ pub fn save_tgm(map: &Map, w: &mut impl Write) -> io::Result<()> {
         }
     }
 
-    Ok(())
+    // Dropping the BufWriter would silently discard an error here.
+    f.flush()
 }
-- 
2.43.0


From e684ba652afe2973bcd9df791f0e6c418844df95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:08 +0000
Subject: [PATCH 03/44] fix: report errors writing the end of a saved image

The png writer was dropped rather than finished, so an error writing the
final chunk was discarded and the save reported success.
---
 crates/dmm-tools/src/dmi.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/dmm-tools/src/dmi.rs b/crates/dmm-tools/src/dmi.rs
index 8326c69..5388092 100644
--- a/crates/dmm-tools/src/dmi.rs
+++ b/crates/dmm-tools/src/dmi.rs
@@ -180,6 +180,8 @@ impl Image {
             let mut writer = encoder.write_header()?;
             // TODO: metadata with write_chunk()
             writer.write_image_data(bytemuck::cast_slice(self.data.as_slice().unwrap()))?;
+            // Dropping the writer would silently discard an error writing IEND.
+            writer.finish()?;
         }
         Ok(())
     }
-- 
2.43.0


From cd71c6bd9289cf7766c47ace114352394e0db839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:08 +0000
Subject: [PATCH 04/44] fix: a failed concurrent load no longer evicts a loaded
 icon

When two threads missed the icon cache at once, the one finishing last
replaced the other's entry even if its own load had failed, so later
lookups of an icon that had been loaded successfully failed.
---
 crates/dmm-tools/src/icon_cache.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/dmm-tools/src/icon_cache.rs b/crates/dmm-tools/src/icon_cache.rs
index 9fb2453..243d9c1 100644
--- a/crates/dmm-tools/src/icon_cache.rs
+++ b/crates/dmm-tools/src/icon_cache.rs
@@ -40,11 +40,13 @@ impl IconCache {
                     None => load(path),
                 }
                 .map(Arc::new);
-                self.lock
-                    .write()
-                    .unwrap()
-                    .insert(path.to_owned(), arc.clone());
-                arc
+                // another thread may have loaded it meanwhile; keep its icon
+                let mut map = self.lock.write().unwrap();
+                let entry = map.entry(path.to_owned()).or_insert(None);
+                if entry.is_none() {
+                    *entry = arc;
+                }
+                entry.clone()
             },
         }
     }
-- 
2.43.0


From 31d7813214c326d19399fcb36b5d7c85c5b28f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:09 +0000
Subject: [PATCH 05/44] fix: read map strings containing an escaped backslash

In "\\\\" the second backslash was itself taken for the start of an escape,
so the closing quote was swallowed and the rest of the map misread.
---
 crates/dmm-tools/src/dmm/read.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/dmm-tools/src/dmm/read.rs b/crates/dmm-tools/src/dmm/read.rs
index a1766d2..62734f8 100644
--- a/crates/dmm-tools/src/dmm/read.rs
+++ b/crates/dmm-tools/src/dmm/read.rs
@@ -89,14 +89,14 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
         if in_data_block {
             if in_varedit_block {
                 if in_quote_block {
-                    if ch == b'\\' {
+                    if escaping {
                         set_curr_datum_start_location!();
                         curr_datum.push(ch);
-                        escaping = true;
-                    } else if escaping {
+                        escaping = false;
+                    } else if ch == b'\\' {
                         set_curr_datum_start_location!();
                         curr_datum.push(ch);
-                        escaping = false;
+                        escaping = true;
                     } else if ch == b'"' {
                         set_curr_datum_start_location!();
                         curr_datum.push(ch);
-- 
2.43.0


From cfce40da99d42c7ea89d716f0fe5d89b3bdce456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:12 +0000
Subject: [PATCH 06/44] fix: long strings and tabs survive a map save and load

The map writer stores strings containing quotes as {"long strings"}, but
the map reader did not know them: it ended them at the first quote and
dropped newlines and tabs. Also stop writing strings whose quotes are
already escaped as long strings, or as raw strings if they contain \"}.
---
 crates/dmm-tools/src/dmm/read.rs | 18 ++++++++++++++++--
 crates/dreammaker/src/lexer.rs   | 20 ++++++++++++++++++--
 2 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/crates/dmm-tools/src/dmm/read.rs b/crates/dmm-tools/src/dmm/read.rs
index 62734f8..da9475d 100644
--- a/crates/dmm-tools/src/dmm/read.rs
+++ b/crates/dmm-tools/src/dmm/read.rs
@@ -31,6 +31,8 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
     let mut in_varedit_block = false;
     let mut after_data_block = false;
     let mut escaping = false;
+    let mut in_long_string = false;
+    let mut long_string_quote = false;
     let mut skip_whitespace = false;
 
     let mut curr_key_start_location = Location::default();
@@ -65,13 +67,15 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
     while let Some(ch) = chars.next() {
         // Readability, simple elif chain isn't duplicate code
         #[allow(clippy::if_same_then_else)]
-        if ch == b'\n' || ch == b'\r' {
+        if in_long_string && ch == b'\n' {
+            // newlines are part of a {"long string"}
+        } else if ch == b'\n' || ch == b'\r' {
             in_comment_line = false;
             comment_trigger = false;
             continue;
         } else if in_comment_line {
             continue;
-        } else if ch == b'\t' {
+        } else if ch == b'\t' && !in_quote_block {
             continue;
         }
 
@@ -89,6 +93,7 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
         if in_data_block {
             if in_varedit_block {
                 if in_quote_block {
+                    let after_quote = take(&mut long_string_quote);
                     if escaping {
                         set_curr_datum_start_location!();
                         curr_datum.push(ch);
@@ -97,6 +102,14 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
                         set_curr_datum_start_location!();
                         curr_datum.push(ch);
                         escaping = true;
+                    } else if in_long_string {
+                        // ends at an unescaped "}
+                        long_string_quote = ch == b'"';
+                        if after_quote && ch == b'}' {
+                            in_quote_block = false;
+                            in_long_string = false;
+                        }
+                        curr_datum.push(ch);
                     } else if ch == b'"' {
                         set_curr_datum_start_location!();
                         curr_datum.push(ch);
@@ -115,6 +128,7 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
 
                     if ch == b'"' {
                         set_curr_datum_start_location!();
+                        in_long_string = curr_datum.last() == Some(&b'{');
                         curr_datum.push(ch);
                         in_quote_block = true;
                     } else if ch == b'=' && curr_var.is_empty() {
diff --git a/crates/dreammaker/src/lexer.rs b/crates/dreammaker/src/lexer.rs
index b077da5..d2d2547 100644
--- a/crates/dreammaker/src/lexer.rs
+++ b/crates/dreammaker/src/lexer.rs
@@ -362,9 +362,25 @@ pub struct Quote<'a>(pub &'a str);
 impl<'a> fmt::Display for Quote<'a> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         let s = self.0;
-        if s.contains("\"}") {
+        // Quotes that are already escaped need no special treatment.
+        let mut bare_quote = false;
+        let mut bare_end = false;
+        let mut chars = s.chars().peekable();
+        while let Some(ch) = chars.next() {
+            match ch {
+                '\\' => {
+                    chars.next();
+                },
+                '"' => {
+                    bare_quote = true;
+                    bare_end |= chars.peek() == Some(&'}');
+                },
+                _ => {},
+            }
+        }
+        if bare_end {
             write!(f, "@@{s}@")
-        } else if s.contains('"') || s.contains('\n') {
+        } else if bare_quote || s.contains('\n') {
             write!(f, "{{\"{s}\"}}")
         } else {
             write!(f, "\"{s}\"")
-- 
2.43.0


From 669cedbe09768eb7126c5568959f4d72e14257c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:55 +0000
Subject: [PATCH 07/44] fix: report damaged maps as errors instead of panicking

A truncated or corrupted map could trip assertions (inconsistent key
lengths, too few coordinates), overflow coordinates, allocate a grid of any
size a stray digit asked for, lose rows or load as a map without tiles.
---
 crates/dmm-tools/src/dmm/read.rs | 66 ++++++++++++++++++++++++--------
 1 file changed, 50 insertions(+), 16 deletions(-)

diff --git a/crates/dmm-tools/src/dmm/read.rs b/crates/dmm-tools/src/dmm/read.rs
index da9475d..279977b 100644
--- a/crates/dmm-tools/src/dmm/read.rs
+++ b/crates/dmm-tools/src/dmm/read.rs
@@ -178,7 +178,14 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
         } else if in_key_block {
             if ch == b'"' {
                 in_key_block = false;
-                assert!(map.key_length == 0 || map.key_length == curr_key_length);
+                if curr_key_length == 0
+                    || (map.key_length != 0 && map.key_length != curr_key_length)
+                {
+                    return Err(DMError::new(
+                        chars.location(),
+                        format!("unexpected key length {curr_key_length}"),
+                    ));
+                }
                 map.key_length = curr_key_length;
             } else {
                 if curr_key == 0 {
@@ -186,6 +193,9 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
                 }
                 curr_key = advance_key(chars.location(), curr_key, ch)?;
                 curr_key_length += 1;
+                if curr_key_length > super::MAX_KEY_LENGTH {
+                    return Err(DMError::new(chars.location(), "key too long"));
+                }
             }
         } else if ch == b'"' {
             in_key_block = true;
@@ -203,6 +213,8 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
     }
 
     // grid
+    const MAX_COORDINATE: usize = u16::MAX as usize;
+
     #[derive(PartialEq, Debug)]
     enum Coord {
         X,
@@ -240,15 +252,28 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
                     ));
                 }
             } else if ch == b')' {
-                assert_eq!(reading_coord, Coord::Z);
+                if reading_coord != Coord::Z {
+                    return Err(DMError::new(
+                        chars.location(),
+                        "Incorrect number of coordinates",
+                    ));
+                }
                 curr_z = take(&mut curr_num);
+                if curr_x == 0 || curr_y == 0 || curr_z == 0 {
+                    return Err(DMError::new(
+                        chars.location(),
+                        "map coordinates start at 1",
+                    ));
+                }
                 max_z = max(max_z, curr_z);
                 in_coord_block = false;
                 reading_coord = Coord::X;
             } else {
                 match (ch as char).to_digit(10) {
-                    Some(x) => curr_num = 10 * curr_num + x as usize,
-                    None => {
+                    Some(x) if curr_num <= MAX_COORDINATE => {
+                        curr_num = 10 * curr_num + x as usize
+                    },
+                    _ => {
                         return Err(DMError::new(
                             chars.location(),
                             format!("bad digit {ch:?} in map coordinate"),
@@ -260,7 +285,7 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
             if ch == b'"' {
                 in_map_string = false;
                 adjust_y = true;
-                curr_y -= 1;
+                curr_y = curr_y.saturating_sub(1);
             } else if ch == b'\r' {
                 // nothing
             } else if ch == b'\n' {
@@ -283,6 +308,7 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
                         ));
                     }
                     max_x = max(max_x, curr_x);
+                    max_y = max(max_y, curr_y);
                     curr_x += 1;
                 }
             }
@@ -294,20 +320,28 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
     }
     max_y = max(max_y, curr_y);
 
-    let mut result = Ok(());
+    if grid.is_empty() {
+        return Err(DMError::new(chars.location(), "map has no tiles"));
+    }
+    // Every tile lies within these bounds, so no tile is missing if the number
+    // of tiles is right.
+    let expected = max_x
+        .checked_mul(max_y)
+        .and_then(|area| area.checked_mul(max_z));
+    if expected != Some(grid.len()) {
+        return Err(DMError::new(
+            chars.location(),
+            format!(
+                "no value for some tiles: found {} for {max_x} x {max_y} x {max_z}",
+                grid.len()
+            ),
+        ));
+    }
     map.grid = Array3::from_shape_fn((max_z, max_y, max_x), |(z, y, x)| {
-        if let Some(&tile) = grid.get(&(x + 1, y + 1, z + 1)) {
-            tile
-        } else {
-            result = Err(DMError::new(
-                chars.location(),
-                format!("no value for tile ({}, {}, {})", x + 1, y + 1, z + 1),
-            ));
-            Key(0)
-        }
+        grid[&(x + 1, y + 1, z + 1)]
     });
 
-    result
+    Ok(())
 }
 
 fn advance_key(loc: Location, curr_key: KeyType, ch: u8) -> Result<KeyType, DMError> {
-- 
2.43.0


From c0389e98493eb57a6e4b31fa654f7272cc904c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:39 +0000
Subject: [PATCH 08/44] fix: report malformed icon metadata as an error instead
 of panicking

A truncated or corrupted Description chunk hit unwrap(), an assertion or an
explicit panic; a size of zero or one larger than the sheet led to a
division by zero when the icon was used.
---
 crates/dreammaker/src/dmi.rs | 82 +++++++++++++++++++++++++++---------
 1 file changed, 61 insertions(+), 21 deletions(-)

diff --git a/crates/dreammaker/src/dmi.rs b/crates/dreammaker/src/dmi.rs
index e4b9d6e..d7e6b61 100644
--- a/crates/dreammaker/src/dmi.rs
+++ b/crates/dreammaker/src/dmi.rs
@@ -284,7 +284,14 @@ impl Metadata {
         for (key, value) in decoder.info_png().text_keys() {
             if key == b"Description" {
                 if let Ok(value) = std::str::from_utf8(value) {
-                    return Metadata::meta_from_str(value);
+                    let metadata = Metadata::meta_from_str(value)?;
+                    if metadata.width > width || metadata.height > height {
+                        return Err(io::Error::new(
+                            io::ErrorKind::InvalidData,
+                            "icons are larger than the sheet that holds them",
+                        ));
+                    }
+                    return Ok(metadata);
                 }
                 break;
             }
@@ -431,21 +438,32 @@ fn parse_metadata(data: &str) -> io::Result<Metadata> {
 
     let mut duplicate_map: HashMap<String, u32> = HashMap::new();
 
+    fn number<T: std::str::FromStr>(value: &str) -> io::Result<T> {
+        value.parse().map_err(|_| malformed(value))
+    }
+
     for line in lines {
         if line.starts_with("# END DMI") {
             break;
         }
-        let (key, value) = line.trim().split_once(" = ").unwrap();
+        let (key, value) = line
+            .trim()
+            .split_once(" = ")
+            .ok_or_else(|| malformed(line))?;
         match key {
-            "width" => metadata.width = value.parse().unwrap(),
-            "height" => metadata.height = value.parse().unwrap(),
+            "width" => metadata.width = number(value)?,
+            "height" => metadata.height = number(value)?,
             "state" => {
                 if let Some(state) = state.take() {
                     frames_so_far += state.frames.count() * state.dirs.count();
                     metadata.states.push(state);
                 }
-                let unquoted = value[1..value.len() - 1].to_owned(); // TODO: unquote
-                assert!(!unquoted.contains('\\') && !unquoted.contains('"'));
+                let unquoted = value // TODO: unquote
+                    .strip_prefix('"')
+                    .and_then(|v| v.strip_suffix('"'))
+                    .filter(|v| !v.contains('\\') && !v.contains('"'))
+                    .ok_or_else(|| malformed(line))?
+                    .to_owned();
 
                 let count = duplicate_map.entry(unquoted.clone()).or_insert(0);
 
@@ -473,30 +491,29 @@ fn parse_metadata(data: &str) -> io::Result<Metadata> {
                 *count += 1;
             },
             "dirs" => {
-                let state = state.as_mut().unwrap();
-                let n: u8 = value.parse().unwrap();
+                let state = state.as_mut().ok_or_else(|| malformed(line))?;
+                let n: u8 = number(value)?;
                 state.dirs = match n {
                     1 => Dirs::One,
                     4 => Dirs::Four,
                     8 => Dirs::Eight,
-                    _ => panic!(),
+                    _ => return Err(malformed(line)),
                 };
             },
             "frames" => {
-                let state = state.as_mut().unwrap();
+                let state = state.as_mut().ok_or_else(|| malformed(line))?;
                 match state.frames {
                     Frames::One => {},
-                    _ => panic!(),
+                    _ => return Err(malformed(line)),
                 }
-                state.frames = Frames::Count(value.parse().unwrap());
+                state.frames = Frames::Count(number::<u16>(value)?.into());
             },
             "delay" => {
-                let state = state.as_mut().unwrap();
+                let state = state.as_mut().ok_or_else(|| malformed(line))?;
                 let mut vector: Vec<f32> = value
                     .split(',')
-                    .map(str::parse)
-                    .collect::<Result<Vec<_>, _>>()
-                    .unwrap();
+                    .map(number)
+                    .collect::<io::Result<Vec<_>>>()?;
                 match state.frames {
                     Frames::One => {
                         if vector.iter().all(|&n| n == 1.) {
@@ -511,21 +528,44 @@ fn parse_metadata(data: &str) -> io::Result<Metadata> {
                             state.frames = Frames::Delays(vector);
                         }
                     },
-                    Frames::Delays(_) => panic!(),
+                    Frames::Delays(_) => return Err(malformed(line)),
                 }
             },
-            "loop" => state.as_mut().unwrap().loop_ = value.parse().unwrap(),
-            "rewind" => state.as_mut().unwrap().rewind = value.parse::<u8>().unwrap() != 0,
+            "loop" => {
+                let state = state.as_mut().ok_or_else(|| malformed(line))?;
+                state.loop_ = number(value)?;
+            },
+            "rewind" => {
+                let state = state.as_mut().ok_or_else(|| malformed(line))?;
+                state.rewind = number::<u8>(value)? != 0;
+            },
             "hotspot" => { /* TODO */ },
-            "movement" => state.as_mut().unwrap().movement = value.parse::<u8>().unwrap() != 0,
-            _ => panic!(),
+            "movement" => {
+                let state = state.as_mut().ok_or_else(|| malformed(line))?;
+                state.movement = number::<u8>(value)? != 0;
+            },
+            _ => return Err(malformed(line)),
         }
     }
     metadata.states.extend(state);
 
+    if metadata.width == 0 || metadata.height == 0 {
+        return Err(io::Error::new(
+            io::ErrorKind::InvalidData,
+            "dmi metadata gives a size of zero",
+        ));
+    }
+
     Ok(metadata)
 }
 
+fn malformed(what: &str) -> io::Error {
+    io::Error::new(
+        io::ErrorKind::InvalidData,
+        format!("Malformed dmi metadata: {what:?}"),
+    )
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
-- 
2.43.0


From 73484df850e8e60c916513c4cfa2cad458845716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:16 +0000
Subject: [PATCH 09/44] fix: dmm-tools exit status no longer wraps around to
 success

---
 crates/dmm-tools-cli/src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/dmm-tools-cli/src/main.rs b/crates/dmm-tools-cli/src/main.rs
index d78d630..cb3ac67 100644
--- a/crates/dmm-tools-cli/src/main.rs
+++ b/crates/dmm-tools-cli/src/main.rs
@@ -52,7 +52,8 @@ fn main() {
 
     run(&opt, &opt.command, &mut context);
 
-    std::process::exit(context.exit_status.into_inner() as i32);
+    // Only the low 8 bits of the exit status reach the parent process.
+    std::process::exit(context.exit_status.into_inner().min(255) as i32);
 }
 
 #[derive(Default)]
-- 
2.43.0


From 919ba454b5fac04f40c8a330bb199b9753d62e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:16 +0000
Subject: [PATCH 10/44] fix: diagnostics of procs from one macro come in a
 fixed order

should_not_sleep and should_be_pure procs were visited in hash table order
whenever they had the same location, as procs expanded from a single macro
invocation do, so both the order and the contents of the reports varied
between runs.
---
 crates/dreamchecker/src/lib.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 5af8d51..ea18468 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -635,6 +635,16 @@ pub struct AnalyzeObjectTree<'o> {
     impure_overrides: ViolatingOverrides<'o>,
 }
 
+/// Order procs by location. Procs which come from the same macro invocation
+/// share one, so fall back on their place in the object tree.
+fn source_order(a: &ProcRef, b: &ProcRef) -> std::cmp::Ordering {
+    let location = a.get().location.cmp(&b.get().location);
+    location
+        .then_with(|| a.ty().index().index().cmp(&b.ty().index().index()))
+        .then_with(|| a.name().cmp(b.name()))
+        .then_with(|| a.index().cmp(&b.index()))
+}
+
 impl<'o> AnalyzeObjectTree<'o> {
     pub fn new(context: &'o Context, objtree: &'o ObjectTree) -> Self {
         let mut return_type = HashMap::default();
@@ -757,7 +767,7 @@ impl<'o> AnalyzeObjectTree<'o> {
         let mut to_visit =
             VecDeque::<(ProcRef<'o>, CallStack, bool, ProcRef<'o>, TypeRef<'o>, bool)>::new();
         let mut must_not_sleep: Vec<_> = self.must_not_sleep.directive.iter().collect();
-        must_not_sleep.sort_by_key(|(procref, _)| procref.get().location);
+        must_not_sleep.sort_by(|(a, _), (b, _)| source_order(a, b));
         for (procref, &(_, location)) in must_not_sleep {
             if !visited.insert(*procref) {
                 continue;
@@ -894,7 +904,7 @@ impl<'o> AnalyzeObjectTree<'o> {
         drop(to_visit);
 
         let mut must_be_pure: Vec<_> = self.must_be_pure.directive.iter().collect();
-        must_be_pure.sort_by_key(|(procref, _)| procref.get().location);
+        must_be_pure.sort_by(|(a, _), (b, _)| source_order(a, b));
         for (procref, (_, location)) in must_be_pure {
             if let Some(impurevec) = self.impure_procs.get_violators(*procref) {
                 error(
-- 
2.43.0


From 69c575b0278a4cdf7f0e48f3b4cfdb42cd0b7152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:16 +0000
Subject: [PATCH 11/44] fix: report a configuration file that cannot be
 examined

If the status of SpacemanDMM.toml could not be determined the file was
silently ignored and the environment checked with the default settings.
---
 crates/dreammaker/src/error.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/dreammaker/src/error.rs b/crates/dreammaker/src/error.rs
index e17822f..e42031c 100644
--- a/crates/dreammaker/src/error.rs
+++ b/crates/dreammaker/src/error.rs
@@ -142,7 +142,8 @@ impl Context {
 
     pub fn autodetect_config(&mut self, dme: &Path) {
         let toml = dme.parent().unwrap().join("SpacemanDMM.toml");
-        if toml.exists() {
+        // If it's unclear whether it exists, let opening it report the reason.
+        if !matches!(toml.try_exists(), Ok(false)) {
             self.force_config(&toml);
         }
     }
-- 
2.43.0


From d7d5ca59d08b37c058d27adb187a8321eb62969d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:16 +0000
Subject: [PATCH 12/44] fix: the order of directory entries no longer picks the
 environment or icon

With several candidate .dme files, or several files whose names differ from
the requested one only in case, whichever the file system listed first won.
---
 crates/dreammaker/src/lib.rs | 39 +++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/crates/dreammaker/src/lib.rs b/crates/dreammaker/src/lib.rs
index 2e7e818..4715ba5 100644
--- a/crates/dreammaker/src/lib.rs
+++ b/crates/dreammaker/src/lib.rs
@@ -146,6 +146,9 @@ pub fn fix_case(path: &Path) -> Cow<'_, Path> {
         None => return Cow::Borrowed(path),
     };
 
+    // The order of directory entries is arbitrary, so if several entries match,
+    // pick the first by name.
+    let mut found = None;
     for entry in match parent.read_dir() {
         Ok(x) => x,
         Err(_) => return Cow::Borrowed(path),
@@ -157,37 +160,37 @@ pub fn fix_case(path: &Path) -> Cow<'_, Path> {
         let epath = entry.path();
         let epath_str = epath.display().to_string();
         let path_str = path.display().to_string();
-        if epath_str.eq_ignore_ascii_case(&path_str) {
-            return Cow::Owned(epath);
+        if epath_str.eq_ignore_ascii_case(&path_str)
+            && found.as_ref().is_none_or(|other| epath < *other)
+        {
+            found = Some(epath);
         }
     }
-    Cow::Borrowed(path)
+    found.map_or(Cow::Borrowed(path), Cow::Owned)
 }
 
 pub const DEFAULT_ENV: &str = "tgstation.dme";
 
 /// Autodetect any `.dme` file in the current folder, or fall back to default.
 ///
-/// If multiple environments exist, the first non-default is preferred.
+/// If multiple environments exist, the first non-default by name is preferred.
 pub fn detect_environment(
     root: &Path,
     default: &str,
 ) -> std::io::Result<Option<std::path::PathBuf>> {
-    let mut result = None;
-    for entry in std::fs::read_dir(root)?.flatten() {
-        let name = entry.file_name();
-        let (dme, default) = {
+    // The order of directory entries is arbitrary, so don't let it decide.
+    Ok(std::fs::read_dir(root)?
+        .flatten()
+        .filter_map(|entry| {
+            let name = entry.file_name();
             let utf8_name = name.to_string_lossy();
-            (utf8_name.ends_with(".dme"), utf8_name == default)
-        };
-        if dme {
-            result = Some(entry.path());
-            if !default {
-                break;
-            }
-        }
-    }
-    Ok(result)
+            let is_default = utf8_name == default;
+            utf8_name
+                .ends_with(".dme")
+                .then(|| (is_default, entry.path()))
+        })
+        .min()
+        .map(|(_, path)| path))
 }
 
 pub fn detect_environment_default() -> std::io::Result<Option<std::path::PathBuf>> {
-- 
2.43.0


From 45ace825e1c76ec6677e729f2f2f24f92ddf2f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:55 +0000
Subject: [PATCH 13/44] fix: bound the depth of recursive #includes

A #pragma multiple file which ends up including itself made the preprocessor
recurse until memory ran out. Report it and stop honouring the pragma instead.
---
 crates/dreammaker/src/preprocessor.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/crates/dreammaker/src/preprocessor.rs b/crates/dreammaker/src/preprocessor.rs
index daa926b..5718da3 100644
--- a/crates/dreammaker/src/preprocessor.rs
+++ b/crates/dreammaker/src/preprocessor.rs
@@ -19,6 +19,9 @@ use super::{Context, DMError, FileId, HasLocation, Location, Severity};
 /// The maximum recursion depth of macro expansion.
 const MAX_RECURSION_DEPTH: usize = 32;
 
+/// The maximum depth of nested `#include`s.
+const MAX_INCLUDE_DEPTH: usize = 256;
+
 // ----------------------------------------------------------------------------
 // Macro representation and predefined macros
 
@@ -113,6 +116,7 @@ impl DefineHistory {
             include_stack: Default::default(),
             include_locations: Default::default(),
             multiple_locations: Default::default(),
+            include_depth_exceeded: false,
             history: Default::default(), // TODO: support branching a second time
             defines,
             maps: Default::default(),
@@ -138,6 +142,7 @@ impl DefineHistory {
             include_stack: Default::default(),
             include_locations: Default::default(),
             multiple_locations: Default::default(),
+            include_depth_exceeded: false,
             history: Default::default(), // TODO: support branching a second time
             defines: DefineMap::from_history(self, self.last_input_loc),
             maps: Default::default(),
@@ -319,6 +324,13 @@ impl<'ctx> IncludeStack<'ctx> {
         "".as_ref()
     }
 
+    fn file_depth(&self) -> usize {
+        self.stack
+            .iter()
+            .filter(|each| matches!(each, Include::File { .. }))
+            .count()
+    }
+
     fn in_expansion(&self) -> bool {
         matches!(self.stack.last(), Some(Include::Expansion { .. }))
     }
@@ -398,6 +410,8 @@ pub struct Preprocessor<'ctx> {
     // list of files with #pragma multiple to allow for more then one include
     // should this be done as an enum in include_locations instead?
     multiple_locations: HashMap<FileId, Location>,
+    // set once a file includes itself without end, after which #pragma multiple is disregarded
+    include_depth_exceeded: bool,
     last_input_loc: Location,
     output: VecDeque<LocatedToken>,
     ifdef_stack: Vec<Ifdef>,
@@ -442,6 +456,7 @@ impl<'ctx> Preprocessor<'ctx> {
             },
             include_locations: Default::default(),
             multiple_locations: Default::default(),
+            include_depth_exceeded: false,
             history: Default::default(),
             defines: DefineMap::with_builtins(),
             maps: Default::default(),
@@ -477,6 +492,7 @@ impl<'ctx> Preprocessor<'ctx> {
             },
             include_locations: Default::default(),
             multiple_locations: Default::default(),
+            include_depth_exceeded: false,
             history: Default::default(),
             defines: DefineMap::with_builtins(),
             maps: Default::default(),
@@ -699,7 +715,14 @@ impl<'ctx> Preprocessor<'ctx> {
         // All DM source is effectively `#pragma once`.
         let file_id = self.context.register_file(register);
         if let Some(&loc) = self.include_locations.get(&file_id) {
-            if !self.multiple_locations.contains_key(&file_id) {
+            let multiple = self.multiple_locations.contains_key(&file_id);
+            if multiple && self.include_stack.file_depth() >= MAX_INCLUDE_DEPTH {
+                self.include_depth_exceeded = true;
+                Err(DMError::new(
+                    self.last_input_loc,
+                    format!("#include {path:?} would exceed max depth of {MAX_INCLUDE_DEPTH}"),
+                ))
+            } else if !multiple || self.include_depth_exceeded {
                 Err(
                     DMError::new(self.last_input_loc, format!("duplicate #include {path:?}"))
                         .set_severity(Severity::Warning)
-- 
2.43.0


From 8af8dcc92603bf4950271024544277f912e12241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:29 +0000
Subject: [PATCH 14/44] fix: detach types whose parent_type makes them their
 own ancestor

---
 crates/dreammaker/src/objtree.rs | 34 ++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/crates/dreammaker/src/objtree.rs b/crates/dreammaker/src/objtree.rs
index 63b0b18..75cbe97 100644
--- a/crates/dreammaker/src/objtree.rs
+++ b/crates/dreammaker/src/objtree.rs
@@ -1012,6 +1012,40 @@ impl ObjectTreeBuilder {
                 self.inner.redirected_parent_types.push(type_idx);
             }
         }
+        self.break_parent_type_cycles(context);
+    }
+
+    /// Following the parents of any type must end, so detach types which are
+    /// their own ancestor.
+    fn break_parent_type_cycles(&mut self, context: &Context) {
+        let tree = &mut self.inner;
+        // Paths alone can't form a cycle, so at least one redirection is in each.
+        for type_idx in tree.redirected_parent_types.clone() {
+            let mut current = tree[type_idx].parent_type;
+            for _ in 0..tree.graph.len() {
+                if current == type_idx || current == NodeIndex::end() {
+                    break;
+                }
+                current = tree[current].parent_type;
+            }
+            if current != type_idx {
+                continue;
+            }
+
+            let ty = &mut tree.graph[type_idx.index()];
+            let location = match ty.vars.get("parent_type") {
+                Some(var) => var.value.location,
+                None => ty.location,
+            };
+            context.register_error(DMError::new(
+                location,
+                format!("parent_type of {} makes it its own parent", ty.path),
+            ));
+            ty.parent_type = NodeIndex::new(0); // same fallback as a bad parent_type
+            if ty.parent_path == ty.parent_type {
+                tree.redirected_parent_types.retain(|&i| i != type_idx);
+            }
+        }
     }
 
     // ------------------------------------------------------------------------
-- 
2.43.0


From e1662b5daaac2d68d5b7e755f59e96b567db5eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:08 +0000
Subject: [PATCH 15/44] fix: mutually recursive macros no longer expand
 exponentially

---
 crates/dreammaker/src/preprocessor.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/crates/dreammaker/src/preprocessor.rs b/crates/dreammaker/src/preprocessor.rs
index 5718da3..7e8374f 100644
--- a/crates/dreammaker/src/preprocessor.rs
+++ b/crates/dreammaker/src/preprocessor.rs
@@ -117,6 +117,7 @@ impl DefineHistory {
             include_locations: Default::default(),
             multiple_locations: Default::default(),
             include_depth_exceeded: false,
+            expansion_depth_exceeded: false,
             history: Default::default(), // TODO: support branching a second time
             defines,
             maps: Default::default(),
@@ -143,6 +144,7 @@ impl DefineHistory {
             include_locations: Default::default(),
             multiple_locations: Default::default(),
             include_depth_exceeded: false,
+            expansion_depth_exceeded: false,
             history: Default::default(), // TODO: support branching a second time
             defines: DefineMap::from_history(self, self.last_input_loc),
             maps: Default::default(),
@@ -412,6 +414,8 @@ pub struct Preprocessor<'ctx> {
     multiple_locations: HashMap<FileId, Location>,
     // set once a file includes itself without end, after which #pragma multiple is disregarded
     include_depth_exceeded: bool,
+    // set once a macro is too recursive, until the outermost expansion ends
+    expansion_depth_exceeded: bool,
     last_input_loc: Location,
     output: VecDeque<LocatedToken>,
     ifdef_stack: Vec<Ifdef>,
@@ -457,6 +461,7 @@ impl<'ctx> Preprocessor<'ctx> {
             include_locations: Default::default(),
             multiple_locations: Default::default(),
             include_depth_exceeded: false,
+            expansion_depth_exceeded: false,
             history: Default::default(),
             defines: DefineMap::with_builtins(),
             maps: Default::default(),
@@ -493,6 +498,7 @@ impl<'ctx> Preprocessor<'ctx> {
             include_locations: Default::default(),
             multiple_locations: Default::default(),
             include_depth_exceeded: false,
+            expansion_depth_exceeded: false,
             history: Default::default(),
             defines: DefineMap::with_builtins(),
             maps: Default::default(),
@@ -1207,7 +1213,16 @@ impl<'ctx> Preprocessor<'ctx> {
 
                 // if it's a define, perform the substitution
                 let mut expansion = self.defines.get(ident).cloned(); // TODO: don't clone?
-                if expansion.is_some() && self.include_stack.stack.len() > MAX_RECURSION_DEPTH {
+                if !self.include_stack.in_expansion() {
+                    self.expansion_depth_exceeded = false;
+                }
+                if self.expansion_depth_exceeded {
+                    // mutually recursive macros could have exponentially many more
+                    expansion = None;
+                } else if expansion.is_some()
+                    && self.include_stack.stack.len() > MAX_RECURSION_DEPTH
+                {
+                    self.expansion_depth_exceeded = true;
                     self.error(format!("expanding {ident:?} would exceed max recursion depth of {MAX_RECURSION_DEPTH} levels")).register(self.context);
                     expansion = None;
                 }
-- 
2.43.0


From d9630efb1bb31c041fd1fa6186d32ce885606c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:45 +0000
Subject: [PATCH 16/44] fix: documentation no longer depends on directory and
 hash order

---
 crates/dmdoc/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/dmdoc/src/main.rs b/crates/dmdoc/src/main.rs
index f307805..9397516 100644
--- a/crates/dmdoc/src/main.rs
+++ b/crates/dmdoc/src/main.rs
@@ -10,7 +10,6 @@ mod template;
 
 use dm::ast::{Ident, InputType, ProcReturnType};
 use dm::objtree::ObjectTree;
-use foldhash::HashSet;
 use maud::{Markup, PreEscaped};
 use pulldown_cmark::{BrokenLink, CowStr};
 use std::collections::{BTreeMap, BTreeSet};
@@ -111,7 +110,7 @@ fn main2() -> Result<(), Box<dyn std::error::Error>> {
         index_path.clone_from(&context.config().dmdoc.index_file);
     }
 
-    let mut code_directories: HashSet<std::ffi::OsString>;
+    let mut code_directories: BTreeSet<std::ffi::OsString>;
     if context.config().dmdoc.module_directories.is_empty() {
         // Any top-level directory which is `#include`d in the `.dme` (most
         // importantly "code", but also "_maps", "interface", and any downstream
@@ -264,6 +263,7 @@ fn main2() -> Result<(), Box<dyn std::error::Error>> {
     // search the code tree for Markdown files
     for modules_path in code_directories {
         for entry in walkdir::WalkDir::new(modules_path)
+            .sort_by_file_name()
             .into_iter()
             .filter_entry(is_visible)
         {
-- 
2.43.0


From 7433a710dd2d5c79fc7a342922feb5c9e1f2a5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:45 +0000
Subject: [PATCH 17/44] fix: dmdoc dry-run exit status no longer wraps around
 to success

---
 crates/dmdoc/src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/dmdoc/src/main.rs b/crates/dmdoc/src/main.rs
index 9397516..16c6d8c 100644
--- a/crates/dmdoc/src/main.rs
+++ b/crates/dmdoc/src/main.rs
@@ -669,7 +669,8 @@ fn main2() -> Result<(), Box<dyn std::error::Error>> {
         // Ensure the diagnostic count is not increased after this point.
         let exit_code = diagnostic_count.into_inner();
         if dry_run {
-            std::process::exit(exit_code);
+            // Exit statuses are only 8 bits wide on many systems.
+            std::process::exit(exit_code.min(255));
         }
     }
 
-- 
2.43.0


From 97d63b3b82cabb1db6800c9317b09d783c3746cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:12 +0000
Subject: [PATCH 18/44] fix: dmdoc keeps every page inside the output directory

---
 crates/dmdoc/src/main.rs | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/crates/dmdoc/src/main.rs b/crates/dmdoc/src/main.rs
index 16c6d8c..9f904c0 100644
--- a/crates/dmdoc/src/main.rs
+++ b/crates/dmdoc/src/main.rs
@@ -15,7 +15,7 @@ use pulldown_cmark::{BrokenLink, CowStr};
 use std::collections::{BTreeMap, BTreeSet};
 use std::fs::{self, File};
 use std::io::{self, Write};
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 use std::sync::Arc;
 
 use dm::docs::*;
@@ -104,6 +104,14 @@ fn main2() -> Result<(), Box<dyn std::error::Error>> {
     };
     let define_history = pp.finalize();
 
+    // Included files are known by their path relative to the environment, so
+    // treat the environment file itself the same way.
+    let env_dir = environment.parent().unwrap_or("".as_ref());
+    let module_file = |file: dm::FileId| {
+        let path = context.file_path(file);
+        path.strip_prefix(env_dir).unwrap_or(&path).to_owned()
+    };
+
     println!("collating documented types");
 
     if index_path.is_none() {
@@ -117,7 +125,7 @@ fn main2() -> Result<(), Box<dyn std::error::Error>> {
         // modular folders) will be searched for `.md` files to include in the docs.
         code_directories = Default::default();
         context.file_list().for_each(|path| {
-            if let Some(std::path::Component::Normal(first)) = path.components().next() {
+            if let Some(Component::Normal(first)) = path.components().next() {
                 code_directories.insert(first.to_owned());
             }
         });
@@ -174,8 +182,7 @@ fn main2() -> Result<(), Box<dyn std::error::Error>> {
     let mut macro_count = 0;
     let mut macros_all = 0;
     for (file, comment_vec) in module_docs {
-        let file_path = context.file_path(file);
-        let module = module_entry(&mut modules1, &file_path);
+        let module = module_entry(&mut modules1, &module_file(file));
         for (line, doc) in comment_vec {
             module.items_wip.push((line, ModuleItem::DocComment(doc)));
         }
@@ -188,7 +195,7 @@ fn main2() -> Result<(), Box<dyn std::error::Error>> {
     for (range, (name, define)) in define_history.iter() {
         macro_exists.insert(name.as_str());
         if !define.docs().is_empty() {
-            let mod_path = module_path(&context.file_path(range.start.file));
+            let mod_path = module_path(&module_file(range.start.file));
             modules_which_exist.insert(mod_path.clone());
             macro_to_module_map.insert(name.as_str(), mod_path);
         }
@@ -239,7 +246,7 @@ fn main2() -> Result<(), Box<dyn std::error::Error>> {
             )
         };
         let docs = DocBlock::parse(&docs.text(), Some(broken_link_callback));
-        let module = module_entry(&mut modules1, &context.file_path(range.start.file));
+        let module = module_entry(&mut modules1, &module_file(range.start.file));
         module.items_wip.push((
             range.start.line,
             ModuleItem::Define {
@@ -395,7 +402,7 @@ fn main2() -> Result<(), Box<dyn std::error::Error>> {
                 // if the var is global, add it to the module tree
                 if ty.is_root() {
                     let module =
-                        module_entry(&mut modules1, &context.file_path(var.value.location.file));
+                        module_entry(&mut modules1, &module_file(var.value.location.file));
                     module.items_wip.push((
                         var.value.location.line,
                         ModuleItem::GlobalVar {
@@ -468,7 +475,7 @@ fn main2() -> Result<(), Box<dyn std::error::Error>> {
                 // if the proc is global, add it to the module tree
                 if ty.is_root() {
                     let module =
-                        module_entry(&mut modules1, &context.file_path(proc_value.location.file));
+                        module_entry(&mut modules1, &module_file(proc_value.location.file));
                     module.items_wip.push((
                         proc_value.location.line,
                         ModuleItem::GlobalProc {
@@ -523,7 +530,7 @@ fn main2() -> Result<(), Box<dyn std::error::Error>> {
 
         // file the type under its module as well
         if let Some(ref block) = parsed_type.docs {
-            let module = module_entry(&mut modules1, &context.file_path(ty.location.file));
+            let module = module_entry(&mut modules1, &module_file(ty.location.file));
             module.items_wip.push((
                 ty.location.line,
                 ModuleItem::Type {
@@ -1118,6 +1125,11 @@ fn module_path(path: &Path) -> String {
     {
         path.pop();
     }
+    // Keep the page inside the output directory wherever the file is.
+    let path: PathBuf = path
+        .components()
+        .filter(|component| matches!(component, Component::Normal(_)))
+        .collect();
     path.display().to_string().replace('\\', "/")
 }
 
-- 
2.43.0


From 7bed1bf2b7f7fd0b8deffb844615fb490e238af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:40 +0000
Subject: [PATCH 19/44] fix: unbalanced braces no longer crash or exhaust the
 parser

---
 crates/dreammaker/src/indents.rs | 2 +-
 crates/dreammaker/src/parser.rs  | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/dreammaker/src/indents.rs b/crates/dreammaker/src/indents.rs
index 8487b4b..bc9f593 100644
--- a/crates/dreammaker/src/indents.rs
+++ b/crates/dreammaker/src/indents.rs
@@ -177,7 +177,7 @@ where
             },
             Token::Punct(Punctuation::RBrace) => {
                 self.current = match self.current {
-                    None => {
+                    None | Some((_, 0)) => {
                         DMError::new(self.last_input_loc, "unmatched right brace")
                             .register(self.context);
                         None
diff --git a/crates/dreammaker/src/parser.rs b/crates/dreammaker/src/parser.rs
index 77ec4b6..f6f1230 100644
--- a/crates/dreammaker/src/parser.rs
+++ b/crates/dreammaker/src/parser.rs
@@ -688,7 +688,13 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
             }
 
             take_match!(self {
-                Token::Eof => break,
+                Token::Eof => {
+                    if terminator != Token::Eof {
+                        // Unclosed block, leave the EOF for the enclosing one.
+                        self.next = Some(Token::Eof);
+                    }
+                    break;
+                },
                 tok if tok == &terminator => break,
                 Token::Punct(Punctuation::Semicolon) => continue,
             } else {
-- 
2.43.0


From d00fa7927d9373e7cb778df4ff48df3784cf02e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:28 +0000
Subject: [PATCH 20/44] fix: string ends orphaned by a malformed directive
 underflowed a counter

---
 crates/dreammaker/src/preprocessor.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/dreammaker/src/preprocessor.rs b/crates/dreammaker/src/preprocessor.rs
index 7e8374f..7c53d5f 100644
--- a/crates/dreammaker/src/preprocessor.rs
+++ b/crates/dreammaker/src/preprocessor.rs
@@ -1253,7 +1253,10 @@ impl<'ctx> Preprocessor<'ctx> {
                                 self.push_output(Token::Ident(ident.to_owned(), false));
                                 match other {
                                     Token::InterpStringBegin(_) => self.in_interp_string += 1,
-                                    Token::InterpStringEnd(_) => self.in_interp_string -= 1,
+                                    Token::InterpStringEnd(_) => {
+                                        self.in_interp_string =
+                                            self.in_interp_string.saturating_sub(1)
+                                    },
                                     _ => {},
                                 }
                                 self.push_output(other);
@@ -1429,7 +1432,10 @@ impl<'ctx> Preprocessor<'ctx> {
                 }
             },
             Token::InterpStringBegin(_) => self.in_interp_string += 1,
-            Token::InterpStringEnd(_) => self.in_interp_string -= 1,
+            // the matching begin may have been part of a malformed directive
+            Token::InterpStringEnd(_) => {
+                self.in_interp_string = self.in_interp_string.saturating_sub(1)
+            },
             // documentation is accumulated, and flushed if no #define follows
             Token::DocComment(doc) if doc.target == DocTarget::FollowingItem => {
                 self.docs_in.push_back((self.last_input_loc, doc));
-- 
2.43.0


From 53e15e167cc7dc7b34bb4d87317288559ab00330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:22 +0000
Subject: [PATCH 21/44] fix: racing render jobs no longer repeat a warning

---
 crates/dmm-tools/src/icon_cache.rs | 31 +++++++++++++++++++++---------
 crates/dmm-tools/src/minimap.rs    | 24 +++++++++++------------
 2 files changed, 34 insertions(+), 21 deletions(-)

diff --git a/crates/dmm-tools/src/icon_cache.rs b/crates/dmm-tools/src/icon_cache.rs
index 243d9c1..e684029 100644
--- a/crates/dmm-tools/src/icon_cache.rs
+++ b/crates/dmm-tools/src/icon_cache.rs
@@ -35,16 +35,25 @@ impl IconCache {
         match existing {
             Some(existing) => existing,
             None => {
-                let arc = match &self.icons_root {
-                    Some(root) => load(&root.join(path)),
-                    None => load(path),
-                }
-                .map(Arc::new);
-                // another thread may have loaded it meanwhile; keep its icon
+                let full = match &self.icons_root {
+                    Some(root) => root.join(path),
+                    None => path.to_owned(),
+                };
+                let loaded = IconFile::from_file(&full);
+                // another thread may have loaded it meanwhile; keep its icon,
+                // and do not report its failure again
                 let mut map = self.lock.write().unwrap();
-                let entry = map.entry(path.to_owned()).or_insert(None);
+                let entry = match map.entry(path.to_owned()) {
+                    hash_map::Entry::Occupied(entry) => entry.into_mut(),
+                    hash_map::Entry::Vacant(entry) => {
+                        if let Err(err) = &loaded {
+                            print_error(&full, err);
+                        }
+                        entry.insert(None)
+                    },
+                };
                 if entry.is_none() {
-                    *entry = arc;
+                    *entry = loaded.ok().map(Arc::new);
                 }
                 entry.clone()
             },
@@ -60,8 +69,12 @@ fn load(path: &Path) -> Option<IconFile> {
     match IconFile::from_file(path) {
         Ok(loaded) => Some(loaded),
         Err(err) => {
-            eprintln!("error loading icon: {}\n  {}", path.display(), err);
+            print_error(path, &err);
             None
         },
     }
 }
+
+fn print_error(path: &Path, err: &std::io::Error) {
+    eprintln!("error loading icon: {}\n  {}", path.display(), err);
+}
diff --git a/crates/dmm-tools/src/minimap.rs b/crates/dmm-tools/src/minimap.rs
index 947c542..7b33e05 100644
--- a/crates/dmm-tools/src/minimap.rs
+++ b/crates/dmm-tools/src/minimap.rs
@@ -176,18 +176,23 @@ pub fn generate(ctx: Context, icon_cache: &IconCache) -> Result<Image, ()> {
                 "bad icon: {:?}, state: {:?}",
                 sprite.icon, sprite.icon_state
             );
-            if !ctx.errors.read().unwrap().contains(&key) {
-                if ctx.print_errors {
-                    eprintln!("{key}");
-                }
-                ctx.errors.write().unwrap().insert(key);
-            }
+            report_once(ctx.errors, key, ctx.print_errors);
         }
     }
 
     Ok(map_image)
 }
 
+fn report_once(errors: &RwLock<HashSet<String>>, key: String, print_errors: bool) {
+    if errors.read().unwrap().contains(&key) {
+        return;
+    }
+    // another thread may have reported it meanwhile
+    if errors.write().unwrap().insert(key.clone()) && print_errors {
+        eprintln!("{key}");
+    }
+}
+
 // OOB handling
 fn clip(
     bounds: dmi::Coordinate,
@@ -236,12 +241,7 @@ fn get_atom_list<'a>(
             Some(x) => x,
             None => {
                 let key = format!("bad path: {}", fab.path);
-                if !errors.read().unwrap().contains(&key) {
-                    if print_errors {
-                        eprintln!("{key}");
-                    }
-                    errors.write().unwrap().insert(key);
-                }
+                report_once(errors, key, print_errors);
                 continue;
             },
         };
-- 
2.43.0


From dd495ac48d838abfc34c5696eee602cb9464736a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:49 +0000
Subject: [PATCH 22/44] fix: an include which cannot be examined is no longer
 replaced by another file

---
 crates/dreammaker/src/preprocessor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/dreammaker/src/preprocessor.rs b/crates/dreammaker/src/preprocessor.rs
index 7c53d5f..7e45b36 100644
--- a/crates/dreammaker/src/preprocessor.rs
+++ b/crates/dreammaker/src/preprocessor.rs
@@ -854,7 +854,8 @@ impl<'ctx> Preprocessor<'ctx> {
                             // 2. relative to root `.dme` file.
                             self.env_file.parent().unwrap().join(&path),
                         ] {
-                            if !candidate.exists() {
+                            // If it cannot be examined, opening it below says why.
+                            if matches!(candidate.try_exists(), Ok(false)) {
                                 continue;
                             }
                             // Double-match is used to let go of the borrow of
-- 
2.43.0


From b7484cf576befc641a449e023ed6b5f4c64172ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:36 +0000
Subject: [PATCH 23/44] fix: a line longer than 65535 columns is not a panic

The column number saturates instead: everything else about the line can
still be reported.
---
 crates/dreammaker/src/config.rs |  4 +++-
 crates/dreammaker/src/error.rs  |  2 +-
 crates/dreammaker/src/lexer.rs  |  9 +++------
 crates/dreammaker/src/parser.rs | 14 +++++++-------
 4 files changed, 14 insertions(+), 15 deletions(-)

diff --git a/crates/dreammaker/src/config.rs b/crates/dreammaker/src/config.rs
index a809de0..b2fc44b 100644
--- a/crates/dreammaker/src/config.rs
+++ b/crates/dreammaker/src/config.rs
@@ -197,7 +197,9 @@ impl Error {
     pub fn line_col(&self) -> Option<(u32, u16)> {
         match self {
             Error::Io(_) => None,
-            Error::Toml(toml) => toml.line_col().map(|(l, c)| (l as u32 + 1, c as u16 + 1)),
+            Error::Toml(toml) => toml
+                .line_col()
+                .map(|(l, c)| (l as u32 + 1, (c as u16).saturating_add(1))),
         }
     }
 
diff --git a/crates/dreammaker/src/error.rs b/crates/dreammaker/src/error.rs
index e42031c..d4d364f 100644
--- a/crates/dreammaker/src/error.rs
+++ b/crates/dreammaker/src/error.rs
@@ -332,7 +332,7 @@ impl Location {
     }
 
     pub fn add_columns(mut self, num: u16) -> Location {
-        self.column += num;
+        self.column = self.column.saturating_add(num);
         self
     }
 
diff --git a/crates/dreammaker/src/lexer.rs b/crates/dreammaker/src/lexer.rs
index d2d2547..699fca2 100644
--- a/crates/dreammaker/src/lexer.rs
+++ b/crates/dreammaker/src/lexer.rs
@@ -627,10 +627,8 @@ impl<'a> Iterator for LocationTracker<'a> {
         if ch == b'\n' {
             self.at_line_end = true;
         }
-        match self.location.column.checked_add(1) {
-            Some(new) => self.location.column = new,
-            None => panic!("per-line column limit of {} exceeded", self.location.column),
-        }
+        // A position too far along a line to be represented is not worth failing over.
+        self.location.column = self.location.column.saturating_add(1);
         Some(ch)
     }
 }
@@ -1219,8 +1217,7 @@ impl<'ctx> Iterator for Lexer<'ctx> {
                     // always end with a newline
                     if !self.final_newline {
                         self.final_newline = true;
-                        let mut location = self.location();
-                        location.column += 1;
+                        let location = self.location().add_columns(1);
                         return Some(LocatedToken {
                             location,
                             token: Token::Punct(Punctuation::Newline),
diff --git a/crates/dreammaker/src/parser.rs b/crates/dreammaker/src/parser.rs
index f6f1230..e815247 100644
--- a/crates/dreammaker/src/parser.rs
+++ b/crates/dreammaker/src/parser.rs
@@ -722,7 +722,7 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
             Some(i) => parts.push(i),
             None if !(absolute || spurious_lead) => return Ok(None),
             None => {
-                slash_loc.column += 1;
+                slash_loc = slash_loc.add_columns(1);
                 self.annotate_precise(slash_loc..slash_loc, || {
                     Annotation::IncompleteTreePath(absolute, parts.clone())
                 });
@@ -746,7 +746,7 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
                     *last = owned.into();
                 }
 
-                slash_loc.column += 1;
+                slash_loc = slash_loc.add_columns(1);
                 self.annotate_precise(slash_loc..slash_loc, || {
                     Annotation::IncompleteTreePath(absolute || always_absolute, parts.clone())
                 });
@@ -2106,7 +2106,7 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
         if let Some(ident) = self.ident_in_seq(parts.len())? {
             parts.push((sep, ident));
         } else {
-            separator_loc.column += 1;
+            separator_loc = separator_loc.add_columns(1);
             self.annotate_precise(separator_loc..separator_loc, || {
                 Annotation::IncompleteTypePath(parts.clone(), sep)
             });
@@ -2118,7 +2118,7 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
             if let Some(ident) = self.ident_in_seq(parts.len())? {
                 parts.push((sep, ident));
             } else {
-                separator_loc.column += 1;
+                separator_loc = separator_loc.add_columns(1);
                 self.annotate_precise(separator_loc..separator_loc, || {
                     Annotation::IncompleteTypePath(parts.clone(), sep)
                 });
@@ -2581,7 +2581,7 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
                     Term::SelfCall(args)
                 } else {
                     // bare dot
-                    dot_loc.column += 1;
+                    dot_loc = dot_loc.add_columns(1);
                     self.annotate_precise(dot_loc..dot_loc, || {
                         Annotation::IncompleteTypePath(Vec::new(), PathOp::Dot)
                     });
@@ -2695,7 +2695,7 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
         let ident = match self.ident()? {
             Some(ident) => ident,
             None => {
-                index_op_loc.column += kind.name().len() as u16;
+                index_op_loc = index_op_loc.add_columns(kind.name().len() as u16);
                 self.annotate_precise(index_op_loc..index_op_loc, || {
                     Annotation::ScopedMissingIdent(belongs_to.clone())
                 });
@@ -2753,7 +2753,7 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
         let ident = match self.ident()? {
             Some(ident) => ident,
             None => {
-                index_op_loc.column += kind.name().len() as u16;
+                index_op_loc = index_op_loc.add_columns(kind.name().len() as u16);
                 self.annotate_precise(index_op_loc..index_op_loc, || {
                     Annotation::ScopedMissingIdent(belongs_to.clone())
                 });
-- 
2.43.0


From d6aa5d0b348ca2579ea88f075bbcaad0b913d2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:36 +0000
Subject: [PATCH 24/44] fix: report input which is nested too deeply instead of
 overflowing the stack

The parser is recursive, as is everything which later visits or drops the
trees it makes, so limit how deep they can be. Reading the token trees of a
proc body no longer recurses, so an offending body does not end the parse.
---
 crates/dreammaker/src/parser.rs | 102 ++++++++++++++++++++++++++------
 1 file changed, 84 insertions(+), 18 deletions(-)

diff --git a/crates/dreammaker/src/parser.rs b/crates/dreammaker/src/parser.rs
index e815247..bbfba0c 100644
--- a/crates/dreammaker/src/parser.rs
+++ b/crates/dreammaker/src/parser.rs
@@ -32,6 +32,16 @@ fn try_another<T>() -> Status<T> {
 
 const SUCCESS: Status<()> = Ok(Some(()));
 
+/// How deeply blocks and parenthesized expressions can be nested.
+///
+/// The parser is recursive, so there must be a limit for it not to run out of stack.
+const MAX_NESTING: u32 = 250;
+
+/// How tall an expression can be, counting both nesting and chains of binary operators.
+///
+/// Everything which visits an expression, including dropping it, is recursive.
+const MAX_EXPRESSION_HEIGHT: u32 = 1000;
+
 macro_rules! require {
     ($self:ident.$($rest:tt)*) => {{
         let v = $self.$($rest)*;
@@ -351,6 +361,8 @@ pub struct Parser<'ctx, 'an, 'inp> {
     location: Location,
     expected: Vec<Cow<'static, str>>,
     skipping_location: Option<Location>,
+    nesting: u32,
+    expression_height: u32,
 
     doc_comments_pending: VecDeque<(Location, DocComment)>,
     module_docs: BTreeMap<FileId, Vec<(u32, DocComment)>>,
@@ -385,6 +397,8 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
             location: Default::default(),
             expected: Vec::new(),
             skipping_location: None,
+            nesting: 0,
+            expression_height: 0,
 
             doc_comments_pending: Default::default(),
             module_docs: Default::default(),
@@ -654,6 +668,33 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
         self.next_comment_of_target(DocTarget::EnclosingItem)
     }
 
+    // ------------------------------------------------------------------------
+    // Limits
+
+    /// Parse something which may contain itself.
+    fn nested<T>(&mut self, f: impl FnOnce(&mut Self) -> Status<T>) -> Status<T> {
+        if self.nesting >= MAX_NESTING {
+            return Err(self.error(format!(
+                "nested too deeply, the maximum is {MAX_NESTING} levels"
+            )));
+        }
+        self.nesting += 1;
+        let result = f(self);
+        self.nesting -= 1;
+        result
+    }
+
+    /// Note that the expression being parsed has been made one level taller.
+    fn grow_expression(&mut self) -> Result<(), DMError> {
+        self.expression_height += 1;
+        if self.expression_height > MAX_EXPRESSION_HEIGHT {
+            return Err(self.error(format!(
+                "expression too complex, the maximum is {MAX_EXPRESSION_HEIGHT} operators deep"
+            )));
+        }
+        Ok(())
+    }
+
     // ------------------------------------------------------------------------
     // Object tree - root
 
@@ -698,7 +739,10 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
                 tok if tok == &terminator => break,
                 Token::Punct(Punctuation::Semicolon) => continue,
             } else {
-                require!(self.tree_entry(current, proc_builder, var_type.clone()));
+                let entry = self.nested(|this| {
+                    this.tree_entry(current, proc_builder, var_type.clone())
+                });
+                self.require(entry)?;
             });
         }
         SUCCESS
@@ -1507,6 +1551,14 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
         &mut self,
         loop_ctx: &LoopContext,
         vars: &mut Vec<(Location, VarType, Ident)>,
+    ) -> Status<Spanned<Statement>> {
+        self.nested(|this| this.statement_ex(loop_ctx, vars))
+    }
+
+    fn statement_ex(
+        &mut self,
+        loop_ctx: &LoopContext,
+        vars: &mut Vec<(Location, VarType, Ident)>,
     ) -> Status<Spanned<Statement>> {
         let start = self.location();
         let spanned = |v| success(Spanned::new(start, v));
@@ -2163,6 +2215,18 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
         &mut self,
         strength: Option<Strength>,
         in_ternary: bool,
+    ) -> Status<Expression> {
+        let siblings_height = std::mem::take(&mut self.expression_height);
+        let expr = self.nested(|this| this.expression_inner(strength, in_ternary))?;
+        self.grow_expression()?;
+        self.expression_height = self.expression_height.max(siblings_height);
+        Ok(expr)
+    }
+
+    fn expression_inner(
+        &mut self,
+        strength: Option<Strength>,
+        in_ternary: bool,
     ) -> Status<Expression> {
         let mut expr = leading!(self.group(in_ternary));
         loop {
@@ -2203,6 +2267,7 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
     ) -> Status<Expression> {
         use std::cmp::Ordering;
 
+        self.grow_expression()?;
         let mut bits = vec![lhs];
         let mut ops = vec![prev_op.oper];
         let mut rhs = require!(self.group(in_ternary));
@@ -2233,6 +2298,7 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
                 Ordering::Equal => {
                     // the same strength... push it to the list
                     self.take();
+                    self.grow_expression()?;
                     ops.push(info.oper);
                     bits.push(rhs);
                     rhs = require!(self.group(in_ternary));
@@ -2856,26 +2922,26 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
 
     fn read_any_tt(&mut self, target: &mut Vec<LocatedToken>) -> Status<()> {
         // read a single arbitrary "token tree", either a group or a single token
-        if self.peek() == &Token::Eof {
-            return try_another();
-        }
-        let start = self.take();
-        let kind = TTKind::from_token(&start);
-        target.push(LocatedToken::new(self.location(), start));
-        let kind = match kind {
-            Some(k) => k,
-            None => return SUCCESS,
-        };
-        let location = self.location;
+        let mut groups: Vec<(TTKind, Location)> = Vec::new();
         loop {
-            self.expected(kind.end());
-            if kind.is_end(self.peek()) {
-                target.push(LocatedToken::new(self.location(), self.take()));
-                return SUCCESS;
-            } else {
+            if let Some((kind, location)) = groups.last() {
+                let (end, location) = (kind.end(), *location);
+                self.expected(end);
                 self.skipping_location = Some(location);
-                require!(self.read_any_tt(target));
+            }
+            if self.peek() == &Token::Eof {
+                return try_another();
+            }
+            let token = self.take();
+            if groups.last().is_some_and(|(kind, _)| kind.is_end(&token)) {
+                groups.pop();
+            } else if let Some(kind) = TTKind::from_token(&token) {
+                groups.push((kind, self.location));
+            }
+            target.push(LocatedToken::new(self.location(), token));
+            if groups.is_empty() {
                 self.skipping_location = None;
+                return SUCCESS;
             }
         }
     }
-- 
2.43.0


From e42d835f9920abd8b9f346aaed12ac21e0662de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:08 +0000
Subject: [PATCH 25/44] fix: accept all the headers the base protocol allows,
 and content which is not UTF-8

A Content-Type header was taken for the end of the headers, and content which
is not UTF-8 was a panic rather than a parse error.
---
 crates/dm-langserver/src/jrpc_io.rs | 37 ++++++++++++++++-------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/crates/dm-langserver/src/jrpc_io.rs b/crates/dm-langserver/src/jrpc_io.rs
index ff83cae..240511b 100644
--- a/crates/dm-langserver/src/jrpc_io.rs
+++ b/crates/dm-langserver/src/jrpc_io.rs
@@ -19,33 +19,36 @@ pub fn run_with_read<R: BufRead, F: FnMut(&str)>(input: &mut R, mut f: F) {
 }
 
 fn read<R: BufRead>(input: &mut R) -> Result<Option<String>, Box<dyn std::error::Error>> {
-    // read the content-length
+    // read the headers, up to a blank line
     let mut buffer = String::new();
-    input.read_line(&mut buffer)?;
-    if buffer.is_empty() {
-        return Ok(None);
-    }
-    let size = {
-        let parts: Vec<&str> = buffer.split(' ').collect();
-        if parts.len() != 2 {
-            eprintln!("JSON-RPC read error: parts.len() != 2\n{parts:?}");
+    let mut size = None;
+    loop {
+        buffer.clear();
+        input.read_line(&mut buffer)?;
+        if buffer.is_empty() {
             return Ok(None);
         }
-        if !parts[0].eq_ignore_ascii_case("content-length:") {
-            eprintln!("JSON-RPC read error: !parts[0].eq_ignore_ascii_case(\"content-length:\")\n{parts:?}");
+        let header = buffer.trim_end();
+        if header.is_empty() {
+            break;
+        }
+        let Some((name, value)) = header.split_once(':') else {
+            eprintln!("JSON-RPC read error: malformed header\n{header:?}");
             return Ok(None);
+        };
+        if name.eq_ignore_ascii_case("content-length") {
+            size = Some(value.trim().parse::<usize>()?);
         }
-        parts[1].trim().parse::<usize>()?
+    }
+    let Some(size) = size else {
+        eprintln!("JSON-RPC read error: no content-length");
+        return Ok(None);
     };
 
-    // skip blank line
-    buffer.clear();
-    input.read_line(&mut buffer)?;
-
     // read content
     let mut content = vec![0; size];
     input.read_exact(&mut content)?;
-    Ok(Some(String::from_utf8(content)?))
+    Ok(Some(String::from_utf8_lossy(&content).into_owned()))
 }
 
 pub fn write(output: &str) {
-- 
2.43.0


From 5d8fcd3fedc204722146f3a3506db0e319e9cfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:54 +0000
Subject: [PATCH 26/44] fix: positions and ranges out of bounds no longer panic
 the language server

A column of 65535 or more (or a line of 2^32-1) overflowed, and a range which
ends before it starts was sliced with. The former saturate, the latter is
refused.
---
 crates/dm-langserver/src/document.rs | 22 +++++++++-----
 crates/dm-langserver/src/main.rs     | 45 ++++++++++------------------
 2 files changed, 29 insertions(+), 38 deletions(-)

diff --git a/crates/dm-langserver/src/document.rs b/crates/dm-langserver/src/document.rs
index b5f96c4..ef0ac0c 100644
--- a/crates/dm-langserver/src/document.rs
+++ b/crates/dm-langserver/src/document.rs
@@ -5,6 +5,7 @@
 use foldhash::HashMap;
 use std::borrow::Cow;
 use std::io::{self, BufRead, Read};
+use std::ops::Range;
 use std::rc::Rc;
 use url::Url;
 
@@ -142,9 +143,8 @@ impl Document {
             },
         };
 
-        let start_pos = total_offset(&self.text, range.start.line, range.start.character)?;
-        let end_pos = total_offset(&self.text, range.end.line, range.end.character)?;
-        Rc::make_mut(&mut self.text).replace_range(start_pos..end_pos, &change.text);
+        let range = byte_range(&self.text, range)?;
+        Rc::make_mut(&mut self.text).replace_range(range, &change.text);
         Ok(())
     }
 }
@@ -178,7 +178,16 @@ fn total_offset(text: &str, line: u32, mut character: u32) -> Result<usize, json
     Ok(text.len() - chars.as_str().len())
 }
 
-// Reverse of the above.
+fn byte_range(text: &str, range: lsp_types::Range) -> Result<Range<usize>, jsonrpc::Error> {
+    let start = total_offset(text, range.start.line, range.start.character)?;
+    let end = total_offset(text, range.end.line, range.end.character)?;
+    if start > end {
+        return Err(invalid_request("range ends before it starts"));
+    }
+    Ok(start..end)
+}
+
+// Reverse of `total_offset`.
 pub fn offset_to_position(text: &str, offset: usize) -> lsp_types::Position {
     let mut line = 0;
     let mut line_start = 0;
@@ -199,10 +208,7 @@ pub fn offset_to_position(text: &str, offset: usize) -> lsp_types::Position {
 }
 
 pub fn get_range(text: &str, range: lsp_types::Range) -> Result<&str, jsonrpc::Error> {
-    Ok(
-        &text[total_offset(text, range.start.line, range.start.character)?
-            ..total_offset(text, range.end.line, range.end.character)?],
-    )
+    Ok(&text[byte_range(text, range)?])
 }
 
 pub fn find_word(text: &str, offset: usize) -> &str {
diff --git a/crates/dm-langserver/src/main.rs b/crates/dm-langserver/src/main.rs
index 1fbfd33..7c8da2d 100644
--- a/crates/dm-langserver/src/main.rs
+++ b/crates/dm-langserver/src/main.rs
@@ -987,11 +987,7 @@ impl Engine {
     ) -> Result<Option<dm::objtree::SymbolId>, jsonrpc::Error> {
         let (_, file_id, annotations) =
             self.get_annotations(&text_document_position.text_document.uri)?;
-        let location = dm::Location {
-            file: file_id,
-            line: text_document_position.position.line + 1,
-            column: text_document_position.position.character as u16 + 1,
-        };
+        let location = position_to_location(file_id, text_document_position.position);
 
         let mut symbol_id = None;
 
@@ -1562,11 +1558,7 @@ impl Engine {
     fn HoverRequest(&mut self, params: P<HoverRequest>) -> R<HoverRequest> {
         let tdp = params.text_document_position_params;
         let (_, file_id, annotations) = self.get_annotations(&tdp.text_document.uri)?;
-        let location = dm::Location {
-            file: file_id,
-            line: tdp.position.line + 1,
-            column: tdp.position.character as u16 + 1,
-        };
+        let location = position_to_location(file_id, tdp.position);
         let symbol_id = self.symbol_id_at(tdp)?;
         let mut results = Vec::new();
 
@@ -1737,11 +1729,7 @@ impl Engine {
     fn GotoDefinition(&mut self, params: P<GotoDefinition>) -> R<GotoDefinition> {
         let tdp = params.text_document_position_params;
         let (real_file_id, file_id, annotations) = self.get_annotations(&tdp.text_document.uri)?;
-        let location = dm::Location {
-            file: file_id,
-            line: tdp.position.line + 1,
-            column: tdp.position.character as u16 + 1,
-        };
+        let location = position_to_location(file_id, tdp.position);
         let mut results = Vec::new();
 
         let iter = annotations.get_location(location);
@@ -1868,11 +1856,7 @@ impl Engine {
         // Like GotoDefinition, but only supports vars, then finds their types
         let tdp = params.text_document_position_params;
         let (_, file_id, annotations) = self.get_annotations(&tdp.text_document.uri)?;
-        let location = dm::Location {
-            file: file_id,
-            line: tdp.position.line + 1,
-            column: tdp.position.character as u16 + 1,
-        };
+        let location = position_to_location(file_id, tdp.position);
 
         let mut type_path: &[Ident] = &[];
 
@@ -1966,11 +1950,7 @@ impl Engine {
     fn Completion(&mut self, params: P<Completion>) -> R<Completion> {
         let (_, file_id, annotations) =
             self.get_annotations(&params.text_document_position.text_document.uri)?;
-        let location = dm::Location {
-            file: file_id,
-            line: params.text_document_position.position.line + 1,
-            column: params.text_document_position.position.character as u16 + 1,
-        };
+        let location = position_to_location(file_id, params.text_document_position.position);
         let iter = annotations.get_location(location);
         let mut results = Vec::new();
         let mut any_annotation = false;
@@ -2048,11 +2028,7 @@ impl Engine {
     fn SignatureHelpRequest(&mut self, params: P<SignatureHelpRequest>) -> R<SignatureHelpRequest> {
         let tdp = params.text_document_position_params;
         let (_, file_id, annotations) = self.get_annotations(&tdp.text_document.uri)?;
-        let location = dm::Location {
-            file: file_id,
-            line: tdp.position.line + 1,
-            column: tdp.position.character as u16 + 1,
-        };
+        let location = position_to_location(file_id, tdp.position);
         let iter = annotations.get_location(location);
         let mut result = None;
 
@@ -2655,6 +2631,15 @@ fn location_to_range(loc: dm::Location) -> lsp_types::Range {
     lsp_types::Range::new(pos, pos)
 }
 
+fn position_to_location(file: dm::FileId, position: lsp_types::Position) -> dm::Location {
+    let column = u16::try_from(position.character).unwrap_or(u16::MAX);
+    dm::Location {
+        file,
+        line: position.line.saturating_add(1),
+        column: column.saturating_add(1),
+    }
+}
+
 fn span_to_range(range: std::ops::Range<dm::Location>) -> lsp_types::Range {
     lsp_types::Range::new(
         location_to_position(range.start),
-- 
2.43.0


From 5d0b56fd3e0c24bd21653d8e8402896a34844e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:02 +0000
Subject: [PATCH 27/44] fix: requests before an environment is loaded no longer
 panic

They looked at the root of an object tree which had none.
---
 crates/dm-langserver/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dm-langserver/src/main.rs b/crates/dm-langserver/src/main.rs
index 7c8da2d..e9ef9bf 100644
--- a/crates/dm-langserver/src/main.rs
+++ b/crates/dm-langserver/src/main.rs
@@ -315,7 +315,7 @@ impl Engine {
 
             context: dm::Context::default(),
             defines: None,
-            objtree: Default::default(),
+            objtree: Arc::new(dm::objtree::ObjectTree::with_builtins()),
             references_table: Default::default(),
 
             annotations: Default::default(),
-- 
2.43.0


From ca71ea3e973291103e97111fdaeb3e224256052d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:33 +0000
Subject: [PATCH 28/44] fix: a column beyond the end of a line means the end of
 the line

It was counted on into the following lines, so that an edit there changed the
wrong text.
---
 crates/dm-langserver/src/document.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/dm-langserver/src/document.rs b/crates/dm-langserver/src/document.rs
index ef0ac0c..814f16a 100644
--- a/crates/dm-langserver/src/document.rs
+++ b/crates/dm-langserver/src/document.rs
@@ -166,8 +166,13 @@ fn line_offset(text: &str, line_number: u32) -> Result<usize, jsonrpc::Error> {
 fn total_offset(text: &str, line: u32, mut character: u32) -> Result<usize, jsonrpc::Error> {
     let start = line_offset(text, line)?;
 
+    // "If the character value is greater than the line length it defaults back
+    // to the line length."
+    let line = text[start..].split('\n').next().unwrap_or_default();
+    let line = line.strip_suffix('\r').unwrap_or(line);
+
     // column is measured in UTF-16 code units, which is really inconvenient.
-    let mut chars = text[start..].chars();
+    let mut chars = line.chars();
     while character > 0 {
         if let Some(ch) = chars.next() {
             character = character.saturating_sub(ch.len_utf16() as u32);
@@ -175,7 +180,7 @@ fn total_offset(text: &str, line: u32, mut character: u32) -> Result<usize, json
             break;
         }
     }
-    Ok(text.len() - chars.as_str().len())
+    Ok(start + line.len() - chars.as_str().len())
 }
 
 fn byte_range(text: &str, range: lsp_types::Range) -> Result<Range<usize>, jsonrpc::Error> {
-- 
2.43.0


From 00955e586a65b9f8efcc4b4cb328c0711f99d933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:37 +0000
Subject: [PATCH 29/44] fix: answers about a document no longer depend on
 earlier questions about it

Annotations of documents which are not open were kept although nobody tells
when those change, and those of open ones were kept across a reparse. Asking
about a file outside of the environment made it look like a part of it, and
the environment file itself was not found to be one.
---
 crates/dm-langserver/src/document.rs |  4 ++++
 crates/dm-langserver/src/main.rs     | 28 +++++++++++++++++++++++-----
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/crates/dm-langserver/src/document.rs b/crates/dm-langserver/src/document.rs
index 814f16a..a5579a7 100644
--- a/crates/dm-langserver/src/document.rs
+++ b/crates/dm-langserver/src/document.rs
@@ -82,6 +82,10 @@ impl DocumentStore {
         result
     }
 
+    pub fn is_open(&self, url: &Url) -> bool {
+        self.map.contains_key(url)
+    }
+
     pub fn get_contents<'a>(&'a self, url: &Url) -> io::Result<Cow<'a, str>> {
         if let Some(document) = self.map.get(url) {
             return Ok(Cow::Borrowed(&document.text));
diff --git a/crates/dm-langserver/src/main.rs b/crates/dm-langserver/src/main.rs
index e9ef9bf..3f0a689 100644
--- a/crates/dm-langserver/src/main.rs
+++ b/crates/dm-langserver/src/main.rs
@@ -292,6 +292,8 @@ struct Engine {
 
     context: dm::Context,
     defines: Option<dm::preprocessor::DefineHistory>,
+    /// The files which were part of the environment when it was parsed.
+    environment_files: dm::FileList,
     objtree: Arc<dm::objtree::ObjectTree>,
     references_table: background::Background<find_references::ReferencesTable>,
 
@@ -315,6 +317,7 @@ impl Engine {
 
             context: dm::Context::default(),
             defines: None,
+            environment_files: Default::default(),
             objtree: Arc::new(dm::objtree::ObjectTree::with_builtins()),
             references_table: Default::default(),
 
@@ -548,6 +551,9 @@ impl Engine {
             );
         };
 
+        // Annotations depend on the environment.
+        self.annotations.clear();
+
         // Set up the preprocessor.
         self.context.reset_io_time();
         self.context.autodetect_config(&environment);
@@ -665,6 +671,7 @@ impl Engine {
         diagnostics_lock.send(map);
         drop(diagnostics_lock);
 
+        self.environment_files = self.context.clone_file_list();
         self.defines = Some(pp.finalize());
 
         let elapsed = start.elapsed();
@@ -720,14 +727,20 @@ impl Engine {
                         Ok(path) => path,
                         Err(_) => "<outside workspace>".as_ref(),
                     };
-                    let (real_file_id, mut preprocessor) = match self.context.get_file(stripped) {
-                        Some(id) => (id, defines.branch_at_file(id, &self.context)),
-                        None => (FileId::default(), defines.branch_at_end(&self.context)),
+                    // The context also knows files which have only been looked at.
+                    let in_environment = self
+                        .environment_files
+                        .get_id(stripped)
+                        .or_else(|| self.environment_files.get_id(&path));
+                    let mut preprocessor = match in_environment {
+                        Some(id) => defines.branch_at_file(id, &self.context),
+                        None => defines.branch_at_end(&self.context),
                     };
                     let contents = self.docs.read(url).map_err(invalid_request)?;
                     let file_id = preprocessor
                         .push_file(stripped.to_owned(), contents)
                         .map_err(invalid_request)?;
+                    let real_file_id = in_environment.unwrap_or(file_id);
                     preprocessor.enable_annotations();
                     let mut annotations = AnnotationTree::default();
                     {
@@ -737,8 +750,12 @@ impl Engine {
                         parser.parse_annotations_only(&mut annotations);
                     }
                     annotations.merge(preprocessor.take_annotations().unwrap());
-                    v.insert((real_file_id, file_id, Rc::new(annotations)))
-                        .clone()
+                    let result = (real_file_id, file_id, Rc::new(annotations));
+                    // nobody tells when a document which is not open changes
+                    if self.docs.is_open(url) {
+                        v.insert(result.clone());
+                    }
+                    result
                 },
                 None => {
                     // single-file mode
@@ -2493,6 +2510,7 @@ impl Engine {
     // ------------------------------------------------------------------------
     // document content management
     fn DidOpenTextDocument(&mut self, params: N<DidOpenTextDocument>) -> NR {
+        self.annotations.remove(&params.text_document.uri);
         self.docs.open(params.text_document)?;
         Ok(())
     }
-- 
2.43.0


From e14734390d4cef731c9af7c2664acfa45043f486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:44 +0000
Subject: [PATCH 30/44] fix: diagnostics of superseded sources are withdrawn
 and never return

---
 crates/dm-langserver/src/main.rs | 101 +++++++++++++++++++------------
 1 file changed, 62 insertions(+), 39 deletions(-)

diff --git a/crates/dm-langserver/src/main.rs b/crates/dm-langserver/src/main.rs
index 3f0a689..c48949a 100644
--- a/crates/dm-langserver/src/main.rs
+++ b/crates/dm-langserver/src/main.rs
@@ -178,6 +178,8 @@ impl ClientCaps {
 #[derive(Default)]
 struct DiagnosticsTracker {
     sent: HashSet<Url>,
+    /// Counts the times the sources were read, for results of older ones to be discarded.
+    generation: u64,
 }
 
 impl DiagnosticsTracker {
@@ -255,6 +257,12 @@ impl DiagnosticsTracker {
         map
     }
 
+    /// Send the first diagnostics of newly read sources.
+    fn restart(&mut self, map: HashMap<Url, Vec<lsp_types::Diagnostic>>) {
+        self.generation += 1;
+        self.send(map);
+    }
+
     fn send(&mut self, map: HashMap<Url, Vec<lsp_types::Diagnostic>>) {
         let mut new_sent = HashSet::with_capacity(map.len());
         for (url, diagnostics) in map {
@@ -551,25 +559,19 @@ impl Engine {
             );
         };
 
-        // Annotations depend on the environment.
-        self.annotations.clear();
-
         // Set up the preprocessor.
         self.context.reset_io_time();
         self.context.autodetect_config(&environment);
         let mut pp = match dm::preprocessor::Preprocessor::new(&self.context, environment.clone()) {
             Ok(pp) => pp,
             Err(err) => {
-                self.issue_notification::<lsp_types::notification::PublishDiagnostics>(
-                    lsp_types::PublishDiagnosticsParams {
-                        uri: path_to_url(environment)?,
-                        diagnostics: vec![lsp_types::Diagnostic {
-                            message: err.to_string(),
-                            ..Default::default()
-                        }],
-                        version: None,
-                    },
-                );
+                let diagnostic = lsp_types::Diagnostic {
+                    message: err.to_string(),
+                    ..Default::default()
+                };
+                let mut map = HashMap::default();
+                map.insert(path_to_url(environment)?, vec![diagnostic]);
+                self.diagnostics_tracker.lock().unwrap().restart(map);
                 eprintln!("{err:?}");
                 return Ok(());
             },
@@ -628,6 +630,15 @@ impl Engine {
         // Lock the diagnostics tracker now to avoid dreamchecker winning the race.
         let mut diagnostics_lock = self.diagnostics_tracker.lock().unwrap();
 
+        // Send the first round of diagnostics from parsing.
+        let map = DiagnosticsTracker::build(
+            self.root.as_ref(),
+            self.context.file_list(),
+            &self.context.errors(),
+            self.client_caps.related_info,
+        );
+        diagnostics_lock.restart(map);
+
         // Background thread: If enabled, and parse was OK, run dreamchecker.
         if self.context.config().langserver.dreamchecker && !fatal_errored {
             self.show_status("checking");
@@ -636,6 +647,7 @@ impl Engine {
             let root = self.root.clone();
             let related_info = self.client_caps.related_info;
             let diagnostics_tracker = self.diagnostics_tracker.clone();
+            let generation = diagnostics_lock.generation;
             std::thread::spawn(move || {
                 dreamchecker::run(&context, &objtree);
                 let elapsed = start.elapsed();
@@ -653,7 +665,12 @@ impl Engine {
                     &context.errors(),
                     related_info,
                 );
-                diagnostics_tracker.lock().unwrap().send(map);
+                let mut diagnostics_lock = diagnostics_tracker.lock().unwrap();
+                if diagnostics_lock.generation != generation {
+                    return; // the sources have been read again meanwhile
+                }
+                diagnostics_lock.send(map);
+                drop(diagnostics_lock);
 
                 issue_notification::<extras::WindowStatus>(Default::default());
             });
@@ -661,14 +678,6 @@ impl Engine {
             self.issue_notification::<extras::WindowStatus>(Default::default());
         }
 
-        // Send the first round of diagnostics from parsing.
-        let map = DiagnosticsTracker::build(
-            self.root.as_ref(),
-            self.context.file_list(),
-            &self.context.errors(),
-            self.client_caps.related_info,
-        );
-        diagnostics_lock.send(map);
         drop(diagnostics_lock);
 
         self.environment_files = self.context.clone_file_list();
@@ -1410,14 +1419,8 @@ impl Engine {
             }
             eprintln!("workspace root: {url}");
 
-            if let Ok(root_path) = url_to_path(&url) {
-                let config_path = root_path.join("SpacemanDMM.toml");
-                if config_path.exists() {
-                    self.context.force_config(&config_path);
-                }
-            }
-
             self.root = Some(url);
+            self.load_config();
         } else {
             eprintln!("single file mode");
         }
@@ -2462,23 +2465,44 @@ impl Engine {
 
     // ------------------------------------------------------------------------
     // basic setup
-    fn Initialized(&mut self, _: N<Initialized>) -> NR {
-        let mut environment = None;
+    fn load_config(&mut self) {
+        if let Some(Ok(root_path)) = self.root.as_ref().map(url_to_path) {
+            let config_path = root_path.join("SpacemanDMM.toml");
+            if config_path.exists() {
+                self.context.force_config(&config_path);
+            }
+        }
+    }
+
+    fn find_environment(&self) -> Result<Option<PathBuf>, jsonrpc::Error> {
         if let Some(ref root) = self.root {
             // TODO: support non-files here
             if let Ok(root_path) = url_to_path(root) {
                 if let Some(dme) = self.context.config().environment.as_ref() {
-                    environment = Some(root_path.join(dme));
-                } else {
-                    environment = dm::detect_environment(&root_path, dm::DEFAULT_ENV)
-                        .map_err(invalid_request)?;
+                    return Ok(Some(root_path.join(dme)));
                 }
+                return dm::detect_environment(&root_path, dm::DEFAULT_ENV).map_err(invalid_request);
             }
         }
+        Ok(None)
+    }
 
-        if let Some(environment) = environment {
-            self.parse_environment(environment)?;
-        } else if self.root.is_some() {
+    fn Initialized(&mut self, _: N<Initialized>) -> NR {
+        // Start with nothing left of what an earlier parse has found.
+        self.context = dm::Context::default();
+        self.defines = None;
+        self.environment_files = Default::default();
+        self.objtree = Arc::new(dm::objtree::ObjectTree::with_builtins());
+        self.references_table = Default::default();
+        self.annotations.clear();
+        self.load_config();
+
+        let environment = self.find_environment();
+        if let Ok(Some(environment)) = environment {
+            return self.parse_environment(environment);
+        }
+        self.diagnostics_tracker.lock().unwrap().restart(Default::default());
+        if environment?.is_none() && self.root.is_some() {
             self.show_status("no .dme file");
         } else {
             self.show_status("single file mode");
@@ -2489,7 +2513,6 @@ impl Engine {
     fn Reparse(&mut self, _p: N<Reparse>) -> NR {
         eprintln!();
         eprintln!("reparsing by request...");
-        self.context.errors_mut().clear();
         self.Initialized(_p)
     }
 
-- 
2.43.0


From 1d07fc85e319587e8b65f2e1638122f61549b629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:11 +0000
Subject: [PATCH 31/44] fix: annotations reaching into another file depended on
 the order of files

---
 crates/dreammaker/src/annotation.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/dreammaker/src/annotation.rs b/crates/dreammaker/src/annotation.rs
index b38ffd0..c6687fb 100644
--- a/crates/dreammaker/src/annotation.rs
+++ b/crates/dreammaker/src/annotation.rs
@@ -67,7 +67,16 @@ impl Default for AnnotationTree {
 }
 
 impl AnnotationTree {
-    pub fn insert(&mut self, place: std::ops::Range<Location>, value: Annotation) {
+    pub fn insert(&mut self, mut place: std::ops::Range<Location>, value: Annotation) {
+        if place.end.file != place.start.file {
+            // The files' order has no meaning, and there is no telling where
+            // this one has ended, so what is left of it belongs to the range.
+            place.end = Location {
+                line: i32::MAX as u32,
+                column: 1,
+                ..place.start
+            };
+        }
         self.tree
             .insert(range(place.start, place.end.pred()), value);
         self.len += 1;
-- 
2.43.0


From afe309c2e148cf138b3a00b1d5cc615152f0c548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:21 +0000
Subject: [PATCH 32/44] fix: number debug adapter messages in the order they
 are sent

---
 crates/dm-langserver/src/debugger/mod.rs | 88 +++++++++++++-----------
 1 file changed, 47 insertions(+), 41 deletions(-)

diff --git a/crates/dm-langserver/src/debugger/mod.rs b/crates/dm-langserver/src/debugger/mod.rs
index aa484e0..d5b185a 100644
--- a/crates/dm-langserver/src/debugger/mod.rs
+++ b/crates/dm-langserver/src/debugger/mod.rs
@@ -39,7 +39,7 @@ mod launched;
 
 use foldhash::{HashMap, HashMapExt, HashSet, HashSetExt};
 use std::error::Error;
-use std::sync::{Arc, Mutex, atomic};
+use std::sync::{Arc, Mutex};
 
 use dm::FileId;
 use dm::objtree::ObjectTree;
@@ -311,28 +311,32 @@ impl Debugger {
                     None => Err(format!("Request NYI: {}", request.command).into()),
                 };
 
-                let response = ResponseMessage {
-                    protocol_message: ProtocolMessage {
-                        seq: self.seq.next(),
-                        type_: ResponseMessage::TYPE.to_owned(),
-                    },
-                    request_seq,
-                    success: handled.is_ok(),
-                    message: handled.as_ref().err().map(|err| err.to_string()),
-                    body: match handled {
-                        Ok(result) => Some(result),
-                        Err(err) => {
-                            if command != Evaluate::COMMAND {
-                                output!(in self.seq, "[main] Error responding to {:?}: {}", command, err);
-                            }
-                            debug_output!(in self.seq, " - {}", message);
-                            None
-                        },
+                let message_text = handled.as_ref().err().map(|err| err.to_string());
+                let success = handled.is_ok();
+                let body = match handled {
+                    Ok(result) => Some(result),
+                    Err(err) => {
+                        if command != Evaluate::COMMAND {
+                            output!(in self.seq, "[main] Error responding to {:?}: {}", command, err);
+                        }
+                        debug_output!(in self.seq, " - {}", message);
+                        None
                     },
-                    command,
                 };
-                self.seq
-                    .send_raw(&serde_json::to_string(&response).expect("response encode error"))
+                self.seq.send(|seq| {
+                    let response = ResponseMessage {
+                        protocol_message: ProtocolMessage {
+                            seq,
+                            type_: ResponseMessage::TYPE.to_owned(),
+                        },
+                        request_seq,
+                        success,
+                        message: message_text,
+                        body,
+                        command,
+                    };
+                    serde_json::to_string(&response).expect("response encode error")
+                })
             },
             other => return Err(format!("unknown `type` field {other:?}").into()),
         }
@@ -1589,33 +1593,31 @@ impl ClientCaps {
 type OutStream = Box<dyn std::io::Write + Send>;
 
 pub struct SequenceNumber {
-    seq: atomic::AtomicI64,
-    stream: Mutex<OutStream>,
+    // The next sequence number, under the same lock as the stream so that the
+    // messages appear in order of their numbers.
+    stream: Mutex<(i64, OutStream)>,
 }
 
 impl SequenceNumber {
     fn new(stream: OutStream) -> SequenceNumber {
         SequenceNumber {
-            seq: Default::default(),
-            stream: Mutex::new(stream),
+            stream: Mutex::new((0, stream)),
         }
     }
 
-    fn next(&self) -> i64 {
-        self.seq.fetch_add(1, atomic::Ordering::Relaxed)
-    }
-
     fn issue_event<E: Event>(&self, event: E) {
         let body = serde_json::to_value(event).expect("event body encode error");
-        let message = EventMessage {
-            protocol_message: ProtocolMessage {
-                seq: self.next(),
-                type_: EventMessage::TYPE.to_owned(),
-            },
-            event: E::EVENT.to_owned(),
-            body: Some(body),
-        };
-        self.send_raw(&serde_json::to_string(&message).expect("event encode error"))
+        self.send(|seq| {
+            let message = EventMessage {
+                protocol_message: ProtocolMessage {
+                    seq,
+                    type_: EventMessage::TYPE.to_owned(),
+                },
+                event: E::EVENT.to_owned(),
+                body: Some(body),
+            };
+            serde_json::to_string(&message).expect("event encode error")
+        })
     }
 
     fn println<S: Into<String>>(&self, output: S) {
@@ -1638,9 +1640,13 @@ impl SequenceNumber {
         })
     }
 
-    fn send_raw(&self, json: &str) {
-        let mut stream = self.stream.lock().expect("DAP output stream poisoned");
-        jrpc_io::write_to(&mut *stream, json);
+    /// Number and send a message.
+    fn send<F: FnOnce(i64) -> String>(&self, message: F) {
+        let mut guard = self.stream.lock().expect("DAP output stream poisoned");
+        let (next, stream) = &mut *guard;
+        let seq = *next;
+        *next += 1;
+        jrpc_io::write_to(stream, &message(seq));
     }
 }
 
-- 
2.43.0


From 30081915d02799fe7383669f657c43d49855db9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:30 +0000
Subject: [PATCH 33/44] fix: never signal a debuggee which has already been
 reaped

---
 crates/dm-langserver/src/debugger/launched.rs | 36 +++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/crates/dm-langserver/src/debugger/launched.rs b/crates/dm-langserver/src/debugger/launched.rs
index 14ea1e5..9b00489 100644
--- a/crates/dm-langserver/src/debugger/launched.rs
+++ b/crates/dm-langserver/src/debugger/launched.rs
@@ -101,9 +101,11 @@ impl Launched {
         std::thread::Builder::new()
             .name("launched debuggee manager thread".to_owned())
             .spawn(move || {
-                let wait = child.wait();
-                // lock as soon as possible to minimize risk of shenanigans
+                // Wait for the exit without reaping the process, so that until
+                // the lock is held its pid can't be reused under `kill`.
+                unsafe { raw::wait_without_reaping(raw::from(&child)) };
                 let mut state = mutex2.lock().expect("launched mutex poisoned");
+                let wait = child.wait();
                 let code = match wait {
                     Ok(status) => {
                         let code = status.code();
@@ -215,6 +217,25 @@ mod raw {
     pub unsafe fn kill(handle: Handle) -> bool {
         unsafe { libc::kill(handle, libc::SIGKILL) != -1 }
     }
+
+    pub unsafe fn wait_without_reaping(handle: Handle) {
+        loop {
+            let result = unsafe {
+                let mut info = std::mem::zeroed();
+                libc::waitid(
+                    libc::P_PID,
+                    handle as libc::id_t,
+                    &mut info,
+                    libc::WEXITED | libc::WNOWAIT,
+                )
+            };
+            if result == 0
+                || std::io::Error::last_os_error().kind() != std::io::ErrorKind::Interrupted
+            {
+                return;
+            }
+        }
+    }
 }
 
 #[cfg(windows)]
@@ -236,4 +257,15 @@ mod raw {
         }
         unsafe { TerminateProcess(handle, 1) != 0 }
     }
+
+    pub unsafe fn wait_without_reaping(handle: Handle) {
+        unsafe extern "system" {
+            fn WaitForSingleObject(
+                hHandle: std::os::windows::raw::HANDLE,
+                dwMilliseconds: std::os::raw::c_ulong,
+            ) -> std::os::raw::c_ulong;
+        }
+        const INFINITE: std::os::raw::c_ulong = 0xffffffff;
+        unsafe { WaitForSingleObject(handle, INFINITE) };
+    }
 }
-- 
2.43.0


From 2ea23557476f4f4a36840333ccaf192167f05589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:30 +0000
Subject: [PATCH 34/44] fix: report termination when the debuggee is killed or
 detached from

---
 crates/dm-langserver/src/debugger/launched.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/dm-langserver/src/debugger/launched.rs b/crates/dm-langserver/src/debugger/launched.rs
index 9b00489..7753ec1 100644
--- a/crates/dm-langserver/src/debugger/launched.rs
+++ b/crates/dm-langserver/src/debugger/launched.rs
@@ -139,6 +139,7 @@ impl Launched {
             State::Active => {
                 output!(in self.seq, "[launched] Killing child process...");
                 *state = State::Killed;
+                self.seq.issue_event(dap_types::TerminatedEvent::default());
                 match unsafe { raw::kill(self.handle) } {
                     true => Ok(()),
                     false => Err(std::io::Error::last_os_error()),
@@ -158,6 +159,7 @@ impl Launched {
             State::Active => {
                 output!(in self.seq, "[launched] Detaching from child process...");
                 *state = State::Detached;
+                self.seq.issue_event(dap_types::TerminatedEvent::default());
             },
             _other => {
                 debug_output!(in self.seq, "[launched] detach no-op in state {:?}", _other);
-- 
2.43.0


From fb6b8efa7185889c7c5815f363c01749ce1a3646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:30 +0000
Subject: [PATCH 35/44] fix: auxtools requests fail after the connection has
 been given up

---
 crates/dm-langserver/src/debugger/auxtools.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/dm-langserver/src/debugger/auxtools.rs b/crates/dm-langserver/src/debugger/auxtools.rs
index 4babce9..2c201e0 100644
--- a/crates/dm-langserver/src/debugger/auxtools.rs
+++ b/crates/dm-langserver/src/debugger/auxtools.rs
@@ -135,10 +135,16 @@ impl Auxtools {
                 Ok(())
             },
 
-            _ => {
+            StreamState::Waiting(_) => {
                 // Success if not connected (kinda dumb)
                 Ok(())
             },
+
+            // A reply still on its way must not be taken for that to a request
+            // which is never sent.
+            StreamState::Disconnected => Err(Box::new(super::GenericError(
+                "disconnected from debug server",
+            ))),
         }
     }
 
-- 
2.43.0


From ece44605d19b98647f7f7699d1f7494d18e16a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:35 +0000
Subject: [PATCH 36/44] fix: a broken extools connection ends the session, not
 the adapter

---
 crates/dm-langserver/src/debugger/extools.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/dm-langserver/src/debugger/extools.rs b/crates/dm-langserver/src/debugger/extools.rs
index 9226d44..9508444 100644
--- a/crates/dm-langserver/src/debugger/extools.rs
+++ b/crates/dm-langserver/src/debugger/extools.rs
@@ -411,7 +411,11 @@ impl ExtoolsThread {
                     }
                     buffer.extend_from_slice(slice);
                 },
-                Err(e) => panic!("extools read error: {e:?}"),
+                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
+                Err(e) => {
+                    output!(in self.seq, "[extools] Read error: {}", e);
+                    break;
+                },
             }
 
             // chop off as many full messages from the buffer as we can
-- 
2.43.0


From fa4547ed302ef3f57a1120eb8e3dce3c51811a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:46 +0000
Subject: [PATCH 37/44] fix: a broken or silent extools connection fails
 requests, not the adapter

---
 crates/dm-langserver/src/debugger/evaluate.rs |   2 +-
 crates/dm-langserver/src/debugger/extools.rs  | 118 ++++++++++--------
 crates/dm-langserver/src/debugger/mod.rs      |  32 ++---
 3 files changed, 86 insertions(+), 66 deletions(-)

diff --git a/crates/dm-langserver/src/debugger/evaluate.rs b/crates/dm-langserver/src/debugger/evaluate.rs
index 508a076..242feee 100644
--- a/crates/dm-langserver/src/debugger/evaluate.rs
+++ b/crates/dm-langserver/src/debugger/evaluate.rs
@@ -33,7 +33,7 @@ impl Debugger {
                             return Err(Box::new(GenericError("Stack frame out of range")));
                         };
 
-                        let bytecode = extools.bytecode(&frame.proc, frame.override_id);
+                        let bytecode = extools.bytecode(&frame.proc, frame.override_id)?;
                         return Ok(EvaluateResponse::from(Self::format_disassembly(bytecode)));
                     } else {
                         return Err(Box::new(GenericError("Unknown #command")));
diff --git a/crates/dm-langserver/src/debugger/extools.rs b/crates/dm-langserver/src/debugger/extools.rs
index 9508444..a3f59ec 100644
--- a/crates/dm-langserver/src/debugger/extools.rs
+++ b/crates/dm-langserver/src/debugger/extools.rs
@@ -232,22 +232,22 @@ impl Extools {
         Ok((thread, frame_no))
     }
 
-    pub fn bytecode(&mut self, proc_ref: &str, override_id: usize) -> &[DisassembledInstruction] {
-        let Extools {
-            bytecode,
-            sender,
-            seq: _seq,
-            bytecode_rx,
-            ..
-        } = self;
-        bytecode.entry((proc_ref.to_owned(), override_id)).or_insert_with(|| {
-            debug_output!(in _seq, "[extools] Fetching bytecode for {}#{}", proc_ref, override_id);
-            sender.send(ProcDisassemblyRequest(ProcId {
+    pub fn bytecode(
+        &mut self,
+        proc_ref: &str,
+        override_id: usize,
+    ) -> Result<&[DisassembledInstruction], Box<dyn Error>> {
+        let key = (proc_ref.to_owned(), override_id);
+        if !self.bytecode.contains_key(&key) {
+            debug_output!(in self.seq, "[extools] Fetching bytecode for {}#{}", proc_ref, override_id);
+            self.sender.send(ProcDisassemblyRequest(ProcId {
                 proc: proc_ref.to_owned(),
                 override_id,
-            }));
-            bytecode_rx.recv().expect("error receiving bytecode").instructions
-        })
+            }))?;
+            let disasm = self.bytecode_rx.recv_timeout(RECV_TIMEOUT)?;
+            self.bytecode.insert(key.clone(), disasm.instructions);
+        }
+        Ok(&self.bytecode[&key])
     }
 
     pub fn offset_to_line(
@@ -255,82 +255,101 @@ impl Extools {
         proc_ref: &str,
         override_id: usize,
         offset: i64,
-    ) -> Option<i64> {
-        let bc = self.bytecode(proc_ref, override_id);
+    ) -> Result<Option<i64>, Box<dyn Error>> {
+        let bc = self.bytecode(proc_ref, override_id)?;
         let mut comment = "";
         for instr in bc.iter() {
             if instr.mnemonic == "DBG LINENO" {
                 comment = &instr.comment;
             }
             if instr.offset >= offset {
-                return parse_lineno(comment);
+                return Ok(parse_lineno(comment));
             }
         }
-        None
+        Ok(None)
     }
 
-    pub fn line_to_offset(&mut self, proc_ref: &str, override_id: usize, line: i64) -> Option<i64> {
-        let bc = self.bytecode(proc_ref, override_id);
+    pub fn line_to_offset(
+        &mut self,
+        proc_ref: &str,
+        override_id: usize,
+        line: i64,
+    ) -> Result<Option<i64>, Box<dyn Error>> {
+        let bc = self.bytecode(proc_ref, override_id)?;
         for instr in bc.iter() {
             if instr.mnemonic == "DBG LINENO" {
                 if let Some(parsed) = parse_lineno(&instr.comment) {
                     if parsed == line {
-                        return Some(instr.offset);
+                        return Ok(Some(instr.offset));
                     }
                 }
             }
         }
-        None
+        Ok(None)
     }
 
-    pub fn set_break_on_runtime(&self, enable: bool) {
-        self.sender.send(BreakOnRuntime(enable));
+    pub fn set_break_on_runtime(&self, enable: bool) -> Result<(), Box<dyn Error>> {
+        self.sender.send(BreakOnRuntime(enable))
     }
 
-    pub fn set_breakpoint(&self, proc: &str, override_id: usize, offset: i64) {
+    pub fn set_breakpoint(
+        &self,
+        proc: &str,
+        override_id: usize,
+        offset: i64,
+    ) -> Result<(), Box<dyn Error>> {
         self.sender.send(BreakpointSet(ProcOffset {
             proc: proc.to_owned(),
             override_id,
             offset,
-        }));
+        }))
     }
 
-    pub fn unset_breakpoint(&self, proc: &str, override_id: usize, offset: i64) {
+    pub fn unset_breakpoint(
+        &self,
+        proc: &str,
+        override_id: usize,
+        offset: i64,
+    ) -> Result<(), Box<dyn Error>> {
         self.sender.send(BreakpointUnset(ProcOffset {
             proc: proc.to_owned(),
             override_id,
             offset,
-        }));
+        }))
     }
 
-    pub fn continue_execution(&self) {
-        self.sender.send(BreakpointResume);
+    pub fn continue_execution(&self) -> Result<(), Box<dyn Error>> {
+        self.sender.send(BreakpointResume)
     }
 
-    fn step_until_line<T: Request + Clone>(&mut self, _thread_id: i64, msg: T) {
-        self.sender.send(msg);
+    fn step_until_line<T: Request + Clone>(
+        &mut self,
+        _thread_id: i64,
+        msg: T,
+    ) -> Result<(), Box<dyn Error>> {
+        self.sender.send(msg)
     }
 
-    pub fn step_in(&mut self, thread_id: i64) {
-        self.step_until_line(thread_id, BreakpointStepInto);
+    pub fn step_in(&mut self, thread_id: i64) -> Result<(), Box<dyn Error>> {
+        self.step_until_line(thread_id, BreakpointStepInto)
     }
 
-    pub fn step_over(&mut self, thread_id: i64) {
-        self.step_until_line(thread_id, BreakpointStepOver);
+    pub fn step_over(&mut self, thread_id: i64) -> Result<(), Box<dyn Error>> {
+        self.step_until_line(thread_id, BreakpointStepOver)
     }
 
-    pub fn step_out(&mut self, thread_id: i64) {
-        self.step_until_line(thread_id, BreakpointStepOut);
+    pub fn step_out(&mut self, thread_id: i64) -> Result<(), Box<dyn Error>> {
+        self.step_until_line(thread_id, BreakpointStepOut)
     }
 
-    pub fn pause(&self) {
-        self.sender.send(Pause);
+    pub fn pause(&self) -> Result<(), Box<dyn Error>> {
+        self.sender.send(Pause)
     }
 
     #[allow(dead_code)]
     pub fn get_reference_type(&self, reference: Ref) -> Result<String, Box<dyn Error>> {
         // TODO: error handling
-        self.sender.send(GetType(reference));
+        self.sender.send(GetType(reference))?;
         Ok(self.get_type_rx.recv_timeout(RECV_TIMEOUT)?.0)
     }
 
@@ -338,17 +357,17 @@ impl Extools {
         &self,
         reference: Ref,
     ) -> Result<HashMap<String, ValueText>, Box<dyn Error>> {
-        self.sender.send(GetAllFields(reference));
+        self.sender.send(GetAllFields(reference))?;
         Ok(self.get_field_rx.recv_timeout(RECV_TIMEOUT)?.0)
     }
 
     pub fn get_list_contents(&self, reference: Ref) -> Result<ListContents, Box<dyn Error>> {
-        self.sender.send(GetListContents(reference));
+        self.sender.send(GetListContents(reference))?;
         Ok(self.get_list_contents_rx.recv_timeout(RECV_TIMEOUT)?)
     }
 
     pub fn get_source(&self, fname: String) -> Result<String, Box<dyn Error>> {
-        self.sender.send(GetSource(fname));
+        self.sender.send(GetSource(fname))?;
         Ok(self.get_source_rx.recv_timeout(RECV_TIMEOUT)?.0)
     }
 
@@ -359,9 +378,9 @@ impl Extools {
         self.last_runtime.as_ref().map(|r| r.message.as_str())
     }
 
-    pub fn configuration_done(&mut self) {
+    pub fn configuration_done(&mut self) -> Result<(), Box<dyn Error>> {
         debug_output!(in self.seq, "[extools] Configuration done");
-        self.sender.send(ConfigurationDone);
+        self.sender.send(ConfigurationDone)
     }
 }
 
@@ -618,7 +637,7 @@ impl Clone for ExtoolsSender {
 }
 
 impl ExtoolsSender {
-    pub fn send<M: Request>(&self, message: M) {
+    pub fn send<M: Request>(&self, message: M) -> Result<(), Box<dyn Error>> {
         let content = serde_json::to_value(message).expect("extools body encode error");
         let mut buffer = serde_json::to_vec(&ProtocolMessage {
             type_: M::TYPE.to_owned(),
@@ -627,8 +646,7 @@ impl ExtoolsSender {
         .expect("extools encode error");
         buffer.push(0);
         // TODO: needs more synchronization
-        (&self.stream)
-            .write_all(&buffer[..])
-            .expect("extools write error");
+        (&self.stream).write_all(&buffer[..])?;
+        Ok(())
     }
 }
diff --git a/crates/dm-langserver/src/debugger/mod.rs b/crates/dm-langserver/src/debugger/mod.rs
index d5b185a..9955eea 100644
--- a/crates/dm-langserver/src/debugger/mod.rs
+++ b/crates/dm-langserver/src/debugger/mod.rs
@@ -598,7 +598,7 @@ impl Debugger {
                 let text = extools.get_source("stddef.dm".to_owned())?;
                 self.stddef_dm_info = Some(StddefDmInfo::new(text));
 
-                extools.configuration_done();
+                extools.configuration_done()?;
             },
 
             DebugClient::Auxtools(auxtools) => {
@@ -695,10 +695,12 @@ impl Debugger {
                     {
                         // TODO: better discipline around format!("{}/{}") and so on
                         let proc = format!("{typepath}/{name}");
-                        if let Some(offset) = extools.line_to_offset(&proc, override_id, sbp.line) {
+                        if let Some(offset) =
+                            extools.line_to_offset(&proc, override_id, sbp.line)?
+                        {
                             let tup = (proc, override_id, offset);
                             if saved.insert(tup.clone()) {
-                                extools.set_breakpoint(&tup.0, tup.1, tup.2);
+                                extools.set_breakpoint(&tup.0, tup.1, tup.2)?;
                             }
                             keep.insert(tup);
                             breakpoints.push(Breakpoint {
@@ -711,7 +713,7 @@ impl Debugger {
                             debug_output!(in self.seq,
                                 "Couldn't find line {} in the following disassembly:\n{}",
                                 sbp.line,
-                                Self::format_disassembly(extools.bytecode(&proc, override_id)));
+                                Self::format_disassembly(extools.bytecode(&proc, override_id)?));
 
                             breakpoints.push(Breakpoint {
                                 message: Some("Unable to determine offset in proc".to_owned()),
@@ -732,7 +734,7 @@ impl Debugger {
 
                 saved.retain(|k| {
                     if !keep.contains(k) {
-                        extools.unset_breakpoint(&k.0, k.1, k.2);
+                        let _ = extools.unset_breakpoint(&k.0, k.1, k.2);
                         false
                     } else {
                         true
@@ -865,7 +867,7 @@ impl Debugger {
                         let offset = 0;
                         let tup = (proc.to_owned(), override_id, offset);
                         if saved.insert(tup.clone()) {
-                            extools.set_breakpoint(&tup.0, tup.1, tup.2);
+                            extools.set_breakpoint(&tup.0, tup.1, tup.2)?;
                         }
                         keep.insert(tup);
                         breakpoints.push(Breakpoint {
@@ -885,7 +887,7 @@ impl Debugger {
 
                 saved.retain(|k| {
                     if !keep.contains(k) {
-                        extools.unset_breakpoint(&k.0, k.1, k.2);
+                        let _ = extools.unset_breakpoint(&k.0, k.1, k.2);
                         false
                     } else {
                         true
@@ -1026,7 +1028,7 @@ impl Debugger {
                         &ex_frame.proc,
                         ex_frame.override_id,
                         ex_frame.offset,
-                    ) {
+                    )? {
                         dap_frame.line = line;
                     }
 
@@ -1378,7 +1380,7 @@ impl Debugger {
         match &mut self.client {
             DebugClient::Extools(extools) => {
                 let extools = extools.get()?;
-                extools.continue_execution();
+                extools.continue_execution()?;
             },
 
             DebugClient::Auxtools(auxtools) => {
@@ -1397,7 +1399,7 @@ impl Debugger {
         match &mut self.client {
             DebugClient::Extools(extools) => {
                 let extools = extools.get()?;
-                extools.step_in(params.threadId);
+                extools.step_in(params.threadId)?;
             },
 
             DebugClient::Auxtools(auxtools) => {
@@ -1413,7 +1415,7 @@ impl Debugger {
         match &mut self.client {
             DebugClient::Extools(extools) => {
                 let extools = extools.get()?;
-                extools.step_over(params.threadId);
+                extools.step_over(params.threadId)?;
             },
 
             DebugClient::Auxtools(auxtools) => {
@@ -1429,7 +1431,7 @@ impl Debugger {
         match &mut self.client {
             DebugClient::Extools(extools) => {
                 let extools = extools.get()?;
-                extools.step_out(params.threadId);
+                extools.step_out(params.threadId)?;
             },
 
             DebugClient::Auxtools(auxtools) => {
@@ -1443,7 +1445,7 @@ impl Debugger {
         match &mut self.client {
             DebugClient::Extools(extools) => {
                 let extools = extools.get()?;
-                extools.pause();
+                extools.pause()?;
             },
 
             DebugClient::Auxtools(auxtools) => {
@@ -1465,7 +1467,7 @@ impl Debugger {
                         .filters
                         .iter()
                         .any(|x| x == EXCEPTION_FILTER_RUNTIMES),
-                );
+                )?;
             },
 
             DebugClient::Auxtools(auxtools) => {
@@ -1539,7 +1541,7 @@ impl Debugger {
 
                 let extools = extools.get()?;
                 let mut result = Vec::new();
-                for instr in extools.bytecode(proc, override_id) {
+                for instr in extools.bytecode(proc, override_id)? {
                     result.push(DisassembledInstruction {
                         address: format!("{}#{}@{}", proc, override_id, instr.offset),
                         instructionBytes: Some(instr.bytes.clone()),
-- 
2.43.0


From c92d620a9d5237419c70d25f6de718c1ab565176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:29 +0000
Subject: [PATCH 38/44] fix: late extools replies are not taken for those to
 later requests

---
 crates/dm-langserver/src/debugger/extools.rs | 110 +++++++++++++------
 1 file changed, 79 insertions(+), 31 deletions(-)

diff --git a/crates/dm-langserver/src/debugger/extools.rs b/crates/dm-langserver/src/debugger/extools.rs
index a3f59ec..d9c139d 100644
--- a/crates/dm-langserver/src/debugger/extools.rs
+++ b/crates/dm-langserver/src/debugger/extools.rs
@@ -5,7 +5,7 @@ use std::error::Error;
 use std::io::{Read, Write};
 use std::net::{Ipv4Addr, SocketAddr, TcpListener, TcpStream};
 use std::sync::{Arc, Mutex, mpsc};
-use std::time::Duration;
+use std::time::{Duration, Instant};
 
 use super::SequenceNumber;
 use super::extools_types::*;
@@ -140,18 +140,50 @@ impl ExtoolsHolder {
     }
 }
 
+/// The replies to one kind of request, which come in the order of the requests.
+struct Replies<T> {
+    /// `None` stands for a reply which makes no sense.
+    rx: mpsc::Receiver<Option<T>>,
+    /// Number of requests which have been given up on, but may still be replied to.
+    overdue: usize,
+}
+
+impl<T> Replies<T> {
+    fn channel() -> (mpsc::Sender<Option<T>>, Replies<T>) {
+        let (tx, rx) = mpsc::channel();
+        (tx, Replies { rx, overdue: 0 })
+    }
+
+    /// Receive the reply to the request which was just sent.
+    fn recv(&mut self) -> Result<T, Box<dyn Error>> {
+        let deadline = Instant::now() + RECV_TIMEOUT;
+        loop {
+            let remaining = deadline.saturating_duration_since(Instant::now());
+            match self.rx.recv_timeout(remaining) {
+                Ok(_) if self.overdue > 0 => self.overdue -= 1,
+                Ok(Some(reply)) => return Ok(reply),
+                Ok(None) => return Err(Box::new(super::GenericError("Bad reply from extools"))),
+                Err(e) => {
+                    self.overdue += 1;
+                    return Err(Box::new(e));
+                },
+            }
+        }
+    }
+}
+
 /// Actually connected Extools frontend.
 pub struct Extools {
     seq: Arc<SequenceNumber>,
     sender: ExtoolsSender,
     threads: Arc<Mutex<HashMap<i64, ThreadInfo>>>,
     bytecode: HashMap<(String, usize), Vec<DisassembledInstruction>>,
-    get_type_rx: mpsc::Receiver<GetTypeResponse>,
-    bytecode_rx: mpsc::Receiver<DisassembledProc>,
-    get_field_rx: mpsc::Receiver<GetAllFieldsResponse>,
+    get_type_rx: Replies<GetTypeResponse>,
+    bytecode_rx: Replies<DisassembledProc>,
+    get_field_rx: Replies<GetAllFieldsResponse>,
     runtime_rx: mpsc::Receiver<Runtime>,
-    get_list_contents_rx: mpsc::Receiver<ListContents>,
-    get_source_rx: mpsc::Receiver<GetSource>,
+    get_list_contents_rx: Replies<ListContents>,
+    get_source_rx: Replies<GetSource>,
     last_runtime: Option<Runtime>,
 }
 
@@ -166,12 +198,12 @@ impl Extools {
         };
         //sender.send(ProcListRequest);
 
-        let (get_type_tx, get_type_rx) = mpsc::channel();
-        let (bytecode_tx, bytecode_rx) = mpsc::channel();
-        let (get_field_tx, get_field_rx) = mpsc::channel();
+        let (get_type_tx, get_type_rx) = Replies::channel();
+        let (bytecode_tx, bytecode_rx) = Replies::channel();
+        let (get_field_tx, get_field_rx) = Replies::channel();
         let (runtime_tx, runtime_rx) = mpsc::channel();
-        let (get_list_contents_tx, get_list_contents_rx) = mpsc::channel();
-        let (get_source_tx, get_source_rx) = mpsc::channel();
+        let (get_list_contents_tx, get_list_contents_rx) = Replies::channel();
+        let (get_source_tx, get_source_rx) = Replies::channel();
 
         let extools = Extools {
             seq,
@@ -244,7 +276,7 @@ impl Extools {
                 proc: proc_ref.to_owned(),
                 override_id,
             }))?;
-            let disasm = self.bytecode_rx.recv_timeout(RECV_TIMEOUT)?;
+            let disasm = self.bytecode_rx.recv()?;
             self.bytecode.insert(key.clone(), disasm.instructions);
         }
         Ok(&self.bytecode[&key])
@@ -347,28 +379,28 @@ impl Extools {
     }
 
     #[allow(dead_code)]
-    pub fn get_reference_type(&self, reference: Ref) -> Result<String, Box<dyn Error>> {
+    pub fn get_reference_type(&mut self, reference: Ref) -> Result<String, Box<dyn Error>> {
         // TODO: error handling
         self.sender.send(GetType(reference))?;
-        Ok(self.get_type_rx.recv_timeout(RECV_TIMEOUT)?.0)
+        Ok(self.get_type_rx.recv()?.0)
     }
 
     pub fn get_all_fields(
-        &self,
+        &mut self,
         reference: Ref,
     ) -> Result<HashMap<String, ValueText>, Box<dyn Error>> {
         self.sender.send(GetAllFields(reference))?;
-        Ok(self.get_field_rx.recv_timeout(RECV_TIMEOUT)?.0)
+        Ok(self.get_field_rx.recv()?.0)
     }
 
-    pub fn get_list_contents(&self, reference: Ref) -> Result<ListContents, Box<dyn Error>> {
+    pub fn get_list_contents(&mut self, reference: Ref) -> Result<ListContents, Box<dyn Error>> {
         self.sender.send(GetListContents(reference))?;
-        Ok(self.get_list_contents_rx.recv_timeout(RECV_TIMEOUT)?)
+        self.get_list_contents_rx.recv()
     }
 
-    pub fn get_source(&self, fname: String) -> Result<String, Box<dyn Error>> {
+    pub fn get_source(&mut self, fname: String) -> Result<String, Box<dyn Error>> {
         self.sender.send(GetSource(fname))?;
-        Ok(self.get_source_rx.recv_timeout(RECV_TIMEOUT)?.0)
+        Ok(self.get_source_rx.recv()?.0)
     }
 
     pub fn last_error_message(&mut self) -> Option<&str> {
@@ -406,12 +438,12 @@ struct ExtoolsThread {
     seq: Arc<SequenceNumber>,
     sender: ExtoolsSender,
     threads: Arc<Mutex<HashMap<i64, ThreadInfo>>>,
-    get_type_tx: mpsc::Sender<GetTypeResponse>,
-    bytecode_tx: mpsc::Sender<DisassembledProc>,
-    get_field_tx: mpsc::Sender<GetAllFieldsResponse>,
+    get_type_tx: mpsc::Sender<Option<GetTypeResponse>>,
+    bytecode_tx: mpsc::Sender<Option<DisassembledProc>>,
+    get_field_tx: mpsc::Sender<Option<GetAllFieldsResponse>>,
     runtime_tx: mpsc::Sender<Runtime>,
-    get_list_contents_tx: mpsc::Sender<ListContents>,
-    get_source_tx: mpsc::Sender<GetSource>,
+    get_list_contents_tx: mpsc::Sender<Option<ListContents>>,
+    get_source_tx: mpsc::Sender<Option<GetSource>>,
 }
 
 impl ExtoolsThread {
@@ -461,13 +493,29 @@ impl ExtoolsThread {
     fn handle_response(&mut self, buffer: &[u8]) -> Result<(), Box<dyn Error>> {
         let message = serde_json::from_slice::<ProtocolMessage>(buffer)?;
         if let Some(handler) = Self::handle_response_table(&message.type_) {
-            handler(self, message.content.unwrap_or(serde_json::Value::Null))
+            let result = handler(self, message.content.unwrap_or(serde_json::Value::Null));
+            if result.is_err() {
+                self.bad_reply(&message.type_);
+            }
+            result
         } else {
             debug_output!(in self.seq, "[extools] NYI: {}", String::from_utf8_lossy(buffer));
             Ok(())
         }
     }
 
+    /// Tell whoever waits for a reply of this type that it can't be read.
+    fn bad_reply(&self, type_: &str) {
+        match type_ {
+            <DisassembledProc as Response>::TYPE => self.queue(&self.bytecode_tx, None),
+            <GetTypeResponse as Response>::TYPE => self.queue(&self.get_type_tx, None),
+            <GetAllFieldsResponse as Response>::TYPE => self.queue(&self.get_field_tx, None),
+            <ListContents as Response>::TYPE => self.queue(&self.get_list_contents_tx, None),
+            <GetSource as Response>::TYPE => self.queue(&self.get_source_tx, None),
+            _ => {},
+        }
+    }
+
     fn queue<T>(&self, tx: &mpsc::Sender<T>, val: T) {
         // If the other side isn't listening, log that.
         if let Err(_e) = tx.send(val) {
@@ -589,27 +637,27 @@ impl ExtoolsThread {
     }
 
     fn DisassembledProc(&mut self, disasm: DisassembledProc) -> R {
-        self.queue(&self.bytecode_tx, disasm);
+        self.queue(&self.bytecode_tx, Some(disasm));
         Ok(())
     }
 
     fn GetTypeResponse(&mut self, response: GetTypeResponse) -> R {
-        self.queue(&self.get_type_tx, response);
+        self.queue(&self.get_type_tx, Some(response));
         Ok(())
     }
 
     fn GetAllFieldsResponse(&mut self, response: GetAllFieldsResponse) -> R {
-        self.queue(&self.get_field_tx, response);
+        self.queue(&self.get_field_tx, Some(response));
         Ok(())
     }
 
     fn ListContents(&mut self, response: ListContents) -> R {
-        self.queue(&self.get_list_contents_tx, response);
+        self.queue(&self.get_list_contents_tx, Some(response));
         Ok(())
     }
 
     fn GetSource(&mut self, response: GetSource) -> R {
-        self.queue(&self.get_source_tx, response);
+        self.queue(&self.get_source_tx, Some(response));
         Ok(())
     }
 
-- 
2.43.0


From 809ba4a0f24035de3629e15bef7360485d7fce34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:30 +0000
Subject: [PATCH 39/44] fix: the debug adapter survives requests about missing
 extools call stacks

---
 crates/dm-langserver/src/debugger/extools.rs | 3 +++
 crates/dm-langserver/src/debugger/mod.rs     | 8 +++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/dm-langserver/src/debugger/extools.rs b/crates/dm-langserver/src/debugger/extools.rs
index d9c139d..28199bb 100644
--- a/crates/dm-langserver/src/debugger/extools.rs
+++ b/crates/dm-langserver/src/debugger/extools.rs
@@ -256,6 +256,9 @@ impl Extools {
     ) -> Result<(ThreadInfo, usize), Box<dyn Error>> {
         let frame_id = frame_id as usize;
         let threads = self.threads.lock().unwrap();
+        if threads.is_empty() {
+            return Err(Box::new(super::GenericError("No call stack available")));
+        }
         let thread_id = (frame_id % threads.len()) as i64;
         let frame_no = frame_id / threads.len();
         let thread = threads.get(&thread_id).cloned().ok_or_else(|| {
diff --git a/crates/dm-langserver/src/debugger/mod.rs b/crates/dm-langserver/src/debugger/mod.rs
index 9955eea..b920283 100644
--- a/crates/dm-langserver/src/debugger/mod.rs
+++ b/crates/dm-langserver/src/debugger/mod.rs
@@ -618,7 +618,10 @@ impl Debugger {
                 for (&k, v) in extools.get_all_threads().iter() {
                     threads.push(Thread {
                         id: k,
-                        name: v.call_stack.last().unwrap().proc.clone(),
+                        name: match v.call_stack.last() {
+                            Some(frame) => frame.proc.clone(),
+                            None => "Main".to_owned(),
+                        },
                     });
                 }
 
@@ -1131,6 +1134,9 @@ impl Debugger {
                 let frame_id = frameId as usize;
 
                 let threads = extools.get_all_threads();
+                if threads.is_empty() {
+                    return Err(Box::new(GenericError("No call stack available")));
+                }
                 let thread_id = (frame_id % threads.len()) as i64;
                 let frame_no = frame_id / threads.len();
 
-- 
2.43.0


From 9abe53971bcd17f88e6ce479c94cda9beef09c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:43 +0000
Subject: [PATCH 40/44] fix: announce the extools connection only once requests
 can use it

---
 crates/dm-langserver/src/debugger/extools.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/dm-langserver/src/debugger/extools.rs b/crates/dm-langserver/src/debugger/extools.rs
index 28199bb..c3d8460 100644
--- a/crates/dm-langserver/src/debugger/extools.rs
+++ b/crates/dm-langserver/src/debugger/extools.rs
@@ -190,7 +190,6 @@ pub struct Extools {
 impl Extools {
     fn from_stream(seq: Arc<SequenceNumber>, stream: TcpStream) -> (Extools, ExtoolsThread) {
         output!(in seq, "[extools] Connected.");
-        seq.issue_event(dap_types::InitializedEvent);
 
         let sender = ExtoolsSender {
             seq: seq.clone(),
@@ -451,6 +450,9 @@ struct ExtoolsThread {
 
 impl ExtoolsThread {
     fn read_loop(&mut self) {
+        // Only now can requests make use of the connection.
+        self.seq.issue_event(dap_types::InitializedEvent);
+
         let mut buffer = Vec::new();
         let mut read_buf = [0u8; 4096];
         loop {
-- 
2.43.0


From fceff17bf7741e1ee5532e4056407820d96f0288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:22 +0000
Subject: [PATCH 41/44] fix: render-many reported success when its result could
 not be written

---
 crates/dmm-tools-cli/src/main.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/dmm-tools-cli/src/main.rs b/crates/dmm-tools-cli/src/main.rs
index cb3ac67..7eb7642 100644
--- a/crates/dmm-tools-cli/src/main.rs
+++ b/crates/dmm-tools-cli/src/main.rs
@@ -444,8 +444,10 @@ fn run(opt: &Opt, command: &Command, context: &mut Context) {
             let command: RenderManyCommand = serde_json::from_reader(stdin.lock()).unwrap();
             context.objtree(opt);
             let result = render_many(context, command);
-            let stdout = std::io::stdout();
-            serde_json::to_writer(stdout.lock(), &result).unwrap();
+            let mut stdout = std::io::stdout().lock();
+            serde_json::to_writer(&mut stdout, &result).unwrap();
+            // Errors of the implicit flush at exit would be ignored.
+            stdout.flush().unwrap();
         },
     }
 }
-- 
2.43.0


From 70c156c36c577af3bf50031fc667b0e1f9c66b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:22 +0000
Subject: [PATCH 42/44] fix: dreamchecker --json reported success when its
 summary could not be written

---
 crates/dreamchecker/src/main.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/dreamchecker/src/main.rs b/crates/dreamchecker/src/main.rs
index 5335038..6f34865 100644
--- a/crates/dreamchecker/src/main.rs
+++ b/crates/dreamchecker/src/main.rs
@@ -6,6 +6,8 @@ extern crate dreammaker as dm;
 #[macro_use]
 extern crate serde_json;
 
+use std::io::Write;
+
 // ----------------------------------------------------------------------------
 // Command-line interface
 
@@ -92,12 +94,15 @@ fn main() {
     println!("Found {errors} diagnostics");
 
     if json {
-        serde_json::to_writer(std::io::stdout().lock(), &json! {{
+        let mut stdout = std::io::stdout().lock();
+        serde_json::to_writer(&mut stdout, &json! {{
             "hint": context.errors().iter().filter(|each| each.severity() == dm::Severity::Hint).count(),
             "info": context.errors().iter().filter(|each| each.severity() == dm::Severity::Info).count(),
             "warning": context.errors().iter().filter(|each| each.severity() == dm::Severity::Warning).count(),
             "error": context.errors().iter().filter(|each| each.severity() == dm::Severity::Error).count(),
         }}).unwrap();
+        // Errors of the implicit flush at exit would be ignored.
+        stdout.flush().unwrap();
     }
 
     std::process::exit(if errors > 0 { 1 } else { 0 });
-- 
2.43.0


From 12eb202e13d656283b89c2dd51c7d94c1e956d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:28 +0000
Subject: [PATCH 43/44] fix: maps with the same file name overwrote each
 other's images

---
 crates/dmm-tools-cli/src/main.rs | 55 +++++++++++++++++++++++++-------
 1 file changed, 43 insertions(+), 12 deletions(-)

diff --git a/crates/dmm-tools-cli/src/main.rs b/crates/dmm-tools-cli/src/main.rs
index 7eb7642..153393d 100644
--- a/crates/dmm-tools-cli/src/main.rs
+++ b/crates/dmm-tools-cli/src/main.rs
@@ -265,10 +265,16 @@ fn run(opt: &Opt, command: &Command, context: &mut Context) {
                 enable,
                 disable,
             );
-            let paths: Vec<&Path> = files.iter().map(|p| p.as_ref()).collect();
+            let mut seen = HashSet::default();
+            let paths: Vec<&Path> = files
+                .iter()
+                .map(Path::new)
+                .filter(|&path| seen.insert(path))
+                .collect();
+            let stems = output_stems(&paths);
             let errors: RwLock<HashSet<String>> = Default::default();
 
-            let perform_job = move |path: &Path| {
+            let perform_job = move |(path, stem): (&Path, String)| {
                 let mut filename;
                 let prefix = if parallel {
                     filename = path.file_name().unwrap().to_string_lossy().into_owned();
@@ -324,12 +330,7 @@ fn run(opt: &Opt, command: &Command, context: &mut Context) {
                         exit_status.fetch_add(1, Ordering::Relaxed);
                         return;
                     }
-                    let outfile = format!(
-                        "{}/{}-{}.png",
-                        output,
-                        path.file_stem().unwrap().to_string_lossy(),
-                        1 + z
-                    );
+                    let outfile = format!("{}/{}-{}.png", output, stem, 1 + z);
                     println!("{prefix}saving {outfile}");
                     image.to_file(outfile.as_ref()).unwrap();
                     if pngcrush {
@@ -371,9 +372,9 @@ fn run(opt: &Opt, command: &Command, context: &mut Context) {
             if parallel {
                 // Suboptimal due to mixing I/O in with what's meant for CPU
                 // tasks, but it should get the job done for now.
-                paths.into_par_iter().for_each(perform_job);
+                paths.into_par_iter().zip(stems).for_each(perform_job);
             } else {
-                paths.into_iter().for_each(perform_job);
+                paths.into_iter().zip(stems).for_each(perform_job);
             }
         },
         // --------------------------------------------------------------------
@@ -508,6 +509,34 @@ fn clamp(val: usize, min: usize, max: usize) -> usize {
     }
 }
 
+/// Pick a stem for the image names of each map, so that maps with the same file
+/// name do not overwrite each other's images.
+fn output_stems(paths: &[&Path]) -> Vec<String> {
+    let stems: Vec<String> = paths
+        .iter()
+        .map(|path| {
+            path.file_stem()
+                .unwrap_or_default()
+                .to_string_lossy()
+                .into_owned()
+        })
+        .collect();
+    let mut reserved: HashSet<String> = stems.iter().cloned().collect();
+    let mut used = HashSet::default();
+    stems
+        .into_iter()
+        .map(|stem| {
+            if used.insert(stem.clone()) {
+                return stem;
+            }
+            (2..)
+                .map(|n| format!("{stem}_{n}"))
+                .find(|name| reserved.insert(name.clone()))
+                .unwrap()
+        })
+        .collect()
+}
+
 fn output_json<T: serde::Serialize>(t: &T) {
     let stdout = std::io::stdout();
     let mut stdout = stdout.lock();
@@ -616,13 +645,15 @@ fn render_many(context: &Context, command: RenderManyCommand) -> RenderManyComma
     }
 
     // Iterate over the maps
+    let paths: Vec<&Path> = command.files.iter().map(|f| f.path.as_path()).collect();
+    let stems = output_stems(&paths);
     let result_files: Vec<_> = command
         .files
         .into_par_iter()
+        .zip(stems)
         .enumerate()
-        .map(|(file_idx, file)| {
+        .map(|(file_idx, (file, stem))| {
             eprintln!("{}: load {}", file_idx, file.path.display());
-            let stem = file.path.file_stem().unwrap().to_string_lossy();
             let map = dmm::Map::from_file(&file.path).unwrap(); // TODO: error handling
             let (dim_x, dim_y, dim_z) = map.dim_xyz();
 
-- 
2.43.0


From 2e9287006b22b25733ec5acc167a6760881bf014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:19 +0000
Subject: [PATCH 44/44] fix: showing a macro with an unbalanced closing brace
 panicked

---
 crates/dreammaker/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/dreammaker/src/lib.rs b/crates/dreammaker/src/lib.rs
index 4715ba5..8a3a78b 100644
--- a/crates/dreammaker/src/lib.rs
+++ b/crates/dreammaker/src/lib.rs
@@ -66,7 +66,7 @@ where
     W: std::fmt::Write,
     I: IntoIterator<Item = lexer::Token>,
 {
-    let mut indents = 0;
+    let mut indents: usize = 0;
     let mut needs_newline = false;
     let mut prev = None;
     for token in input {
@@ -79,7 +79,8 @@ where
                 }
             },
             lexer::Token::Punct(lexer::Punctuation::RBrace) => {
-                indents -= 1;
+                // the tokens of a macro need not be balanced
+                indents = indents.saturating_sub(1);
                 needs_newline = true;
                 if show_ws {
                     write!(w, "}}")?;
-- 
2.43.0


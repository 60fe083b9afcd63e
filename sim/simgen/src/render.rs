//! Environments, icons and maps for the map renderer.
use crate::map::{MapSpec, PrefabSpec, Style};
use crate::png::{Color, IconSpec, StateSpec};
use serde::{Deserialize, Serialize};
use simos::Rng;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct TypeSpec {
    pub path: String,
    pub vars: Vec<(String, String)>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct RenderSpec {
    pub types: Vec<TypeSpec>,
    /// Path below the environment's directory, and contents.
    pub icons: Vec<(String, IconSpec)>,
    /// Absolute path, map, text style.
    pub maps: Vec<(String, MapSpec, Style)>,
    /// (pass, enabled), (type path, layer), hidden type paths.
    pub passes: Vec<(String, bool)>,
    pub layers: Vec<(String, String)>,
    pub hide: Vec<String>,
    pub config: bool,
}

pub const ROOT: &str = "/w/proj";
pub const DME: &str = "/w/proj/test.dme";

/// Types the render passes look up by name.
const REQUIRED: &[&str] = &[
    "/turf/open/space/basic",
    "/turf/open/floor/plating",
    "/turf/template_noop",
    "/obj/machinery/power/terminal",
    "/obj/machinery/gravity_generator/part",
];
const PATHS: &[&str] = &[
    "/turf/open/floor/iron",
    "/turf/open/floor/iron/dark",
    "/turf/closed/wall",
    "/turf/closed/wall",
    "/turf/closed/wall/r_wall",
    "/turf/closed/mineral",
    "/turf/closed/indestructible/fakeglass",
    "/turf/open/space/transit",
    "/obj/structure/cable",
    "/obj/structure/cable/layer3",
    "/obj/structure/cable/multilayer",
    "/obj/structure/grille",
    "/obj/structure/lattice",
    "/obj/structure/window",
    "/obj/structure/window/full",
    "/obj/structure/closet",
    "/obj/structure/closet/secure",
    "/obj/structure/closet/crate",
    "/obj/structure/closet/crate/secure",
    "/obj/structure/bookcase",
    "/obj/structure/table",
    "/obj/structure/table/glass",
    "/obj/structure/disposalpipe/segment",
    "/obj/structure/tank_dispenser",
    "/obj/structure/transit_tube",
    "/obj/structure/transit_tube/curved",
    "/obj/structure/transit_tube/curved/flipped",
    "/obj/structure/transit_tube/diagonal",
    "/obj/structure/transit_tube/junction",
    "/obj/structure/transit_tube/junction/flipped",
    "/obj/structure/transit_tube/station",
    "/obj/structure/transit_tube/station/reverse",
    "/obj/machinery/power/apc",
    "/obj/machinery/power/smes",
    "/obj/machinery/power/solar_control",
    "/obj/machinery/computer/a",
    "/obj/machinery/firealarm",
    "/obj/machinery/navbeacon",
    "/obj/machinery/door/airlock",
    "/obj/machinery/door/airlock/glass",
    "/obj/machinery/gravity_generator/main",
    "/obj/machinery/atmospherics/pipe/simple",
    "/obj/machinery/atmospherics/pipe/simple/visible",
    "/obj/machinery/atmospherics/components/unary/vent",
    "/obj/item/storage/box",
    "/obj/item/storage/box/papersack",
    "/obj/item/thing",
    "/obj/effect/spawner/structure/window",
    "/obj/effect/mapping_helpers/x",
    "/obj/effect/turf_decal/a",
    "/area/station",
    "/area/space",
    "/mob/living",
];
const DECLARED: &[&str] = &[
    "smooth", "smoothing_flags", "canSmoothWith", "smoothing_groups", "smooth_icon", "base_icon_state", "fixed_underlay", "broken",
    "burnt", "can_be_unanchored", "anchored", "opened", "locked", "secure", "welded", "weld_w", "weld_z", "lid_icon_state", "lid_icon", "lid_w", "lid_z",
    "enable_door_overlay", "icon_door_override", "icon_door", "has_closed_overlay", "icon_screen", "icon_keyboard", "glass", "overlays_file", "can_be_glass",
    "illustration", "oxygentanks", "plasmatanks", "cable_layer", "spawn_list", "post_init_icon_state",
];
const STATES: &[&str] = &["", "floor", "a", "b", "wall", "open", "scrub_map_on-1", "vent_map-2"];

fn states_for(r: &mut Rng) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for s in STATES {
        if r.chance(2, 3) {
            v.push(s.to_string());
        }
    }
    let groups: &[&[&str]] = &[
        &["1-i", "2-i", "3-i", "4-i", "1-n", "2-n", "3-s", "4-s", "1-w", "2-e", "3-w", "4-e", "1-f", "2-f", "3-f", "4-f"],
        &["1-nw", "2-ne", "3-sw", "4-se", "d-se", "d-se-0", "d-sw", "d-sw-1", "d-ne", "d-ne-0", "d-nw-1", "d-nw"],
        &["wall-0", "wall-1", "wall-2", "wall-3", "wall-4", "wall-5", "wall-8", "wall-12", "wall-15", "wall-255", "wall-5-d", "wall-9-d", "wall-10-d"],
        &["l2-1", "l2-2", "l2-4", "l2-8", "l2-1-2", "l2-4-8", "l2-1-2-node", "l2-noconnection", "l3-noconnection", "l2-1-2-4-8", "l2-1-2-4-8-node"],
        &["decorative", "decorative_diag", "plating", "grille", "securecrateg", "securecrater", "welded", "a_open", "a_door", "locked", "unlocked"],
        &["on_1", "on_3", "on_5", "activated", "apcox-1", "apco0-3", "fire_overlay", "oxygen-4", "plasma-1", "book-0", "glass_closed", "fill_closed", "vent_off", "scrub_on"],
    ];
    for g in groups {
        if r.chance(1, 3) {
            v.extend(g.iter().map(|s| s.to_string()));
        }
    }
    v
}

fn icon(r: &mut Rng) -> IconSpec {
    let names = states_for(r);
    let (w, h) = *r.pick(&[(32u32, 32u32), (32, 32), (32, 32), (8, 8), (40, 33), (64, 48), (16, 70)]);
    let states: Vec<StateSpec> = names
        .into_iter()
        .map(|name| StateSpec { name, dirs: *r.pick(&[1u8, 1, 1, 4, 8]), frames: 1, delays: None, rewind: false, loop_: 0, movement: false })
        .collect();
    let n: u32 = states.iter().map(|s| s.dirs as u32).sum::<u32>().max(1);
    let cols = 1 + r.below(6) as u32;
    IconSpec {
        w,
        h,
        cols,
        rows: n.div_ceil(cols),
        states,
        color: *r.pick(&[Color::Rgba, Color::Rgba, Color::Rgb, Color::Gray, Color::Palette]),
        text: 1 + r.below(2) as u8,
        after: false,
        px_seed: r.next(),
    }
}

fn icon_ref(r: &mut Rng, n: usize) -> String {
    match r.below(20) {
        0 => "'icons/missing.dmi'".into(),
        1 => "null".into(),
        2 => "'icons/turf/space.dmi'".into(),
        k => format!("'icons/i{}.dmi'", k as usize % n.max(1)),
    }
}

fn vars(r: &mut Rng, nicons: usize, path: &str) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = vec![];
    let mut put = |k: &str, e: String| v.push((k.to_owned(), e));
    if r.chance(7, 8) {
        put("icon", icon_ref(r, nicons));
        put("icon_state", format!("\"{}\"", r.pick(STATES)));
    }
    for (k, vals) in [
        ("layer", &["2", "2.5", "3", "4.25", "-1", "0.1", "5"][..]),
        ("plane", &["0", "0", "-1", "3", "-7"]),
        ("dir", &["1", "2", "4", "8", "5", "6", "9", "10"]),
        ("color", &["\"#ff0000\"", "\"#08f\"", "\"blue\"", "\"#zz\"", "null"]),
        ("alpha", &["255", "128", "0", "300"]),
        ("pixel_x", &["0", "-16", "5", "40", "-100"]),
        ("pixel_y", &["0", "16", "-33"]),
        ("pixel_w", &["3"]),
        ("invisibility", &["0", "61", "101"]),
    ] {
        if r.chance(1, 4) {
            put(k, r.pick(vals).to_string());
        }
    }
    let flag = |r: &mut Rng| r.pick(&["0", "1", "1"]).to_string();
    if path.starts_with("/turf/closed") || path.contains("window") || path.contains("table") || r.chance(1, 8) {
        put("smooth", r.pick(&["0", "1", "2", "3", "5", "6", "9", "13"]).to_string());
        put("smoothing_flags", r.pick(&["0", "1", "2", "5", "6", "9", "10", "13", "14"]).to_string());
        put("base_icon_state", "\"wall\"".into());
        if r.chance(2, 3) {
            put("canSmoothWith", r.pick(&["list(1)", "list(2, 1)", "list(/turf/closed/wall)", "list(3, /obj/structure/window)", "list(\"x\", \"y\")"]).to_string());
        }
        if r.chance(2, 3) {
            put("smoothing_groups", r.pick(&["list(1)", "list(2, 3)", "list(\"y\", \"z\")", "list()"]).to_string());
        }
        if r.chance(1, 5) {
            put("smooth_icon", icon_ref(r, nicons));
        }
        if r.chance(1, 5) {
            put("fixed_underlay", "list(\"space\" = 1)".into());
        }
        if r.chance(1, 6) {
            put("post_init_icon_state", "\"a\"".into());
        }
        if r.chance(1, 4) {
            put("can_be_unanchored", flag(r));
            put("anchored", flag(r));
        }
    }
    if path.contains("closet") {
        for k in ["opened", "broken", "locked", "secure", "welded", "enable_door_overlay", "icon_door_override", "has_closed_overlay"] {
            if r.chance(1, 2) {
                put(k, flag(r));
            }
        }
        if r.chance(1, 2) {
            put("icon_door", "\"a\"".into());
        }
        if r.chance(1, 2) {
            put("lid_icon_state", "\"b\"".into());
            put("lid_w", "4".into());
        }
    }
    if path.contains("airlock") {
        put("glass", flag(r));
        put("can_be_glass", flag(r));
        put("overlays_file", icon_ref(r, nicons));
    }
    if path.contains("computer") || path.contains("solar") {
        put("icon_screen", "\"a\"".into());
        put("icon_keyboard", "\"b\"".into());
    }
    if path.contains("cable") && r.chance(1, 2) {
        put("cable_layer", r.pick(&["\"l1\"", "\"l2\"", "\"l3\""]).to_string());
    }
    if path.contains("dispenser") {
        put("oxygentanks", r.below(6).to_string());
        put("plasmatanks", r.below(6).to_string());
    }
    if path.contains("box") {
        put("illustration", "\"a\"".into());
    }
    if path.contains("spawner") {
        put("spawn_list", r.pick(&["list(/turf/open/floor/plating, /obj/machinery/power/terminal)", "list(\"/turf/open/floor/plating\")", "null"]).to_string());
    }
    if path.contains("unary") {
        put("icon_state", r.pick(&["\"scrub_map_on-1\"", "\"vent_map-2\"", "\"a\""]).to_string());
    }
    let mut seen: Vec<(String, String)> = vec![];
    for (k, e) in v {
        seen.retain(|s| s.0 != k);
        seen.push((k, e));
    }
    seen
}

const UNKNOWN: &[&str] = &["/obj/unknown/type", "/obj/unknown/type/b", "/obj/gone", "/turf/nowhere", "/mob/nobody", "/area/none", "/datum"];

pub const PASSES: &[&str] = &[
    "hide-space", "hide-areas", "hide-invisible", "pretty", "spawners", "overlays", "transit-tube", "gravity-gen", "only-powernet", "only-pipenet",
    "fancy-layers", "icon-smoothing-2016", "icon-smoothing", "icon-smoothing-2025", "smart-cables", "only-wires-and-pipes",
];

impl RenderSpec {
    pub fn gen(r: &mut Rng, maps: usize, max_cells: usize) -> RenderSpec {
        let nicons = 1 + r.idx(4);
        let icons = (0..nicons).map(|i| (format!("icons/i{i}.dmi"), icon(r))).collect();
        let mut types: Vec<TypeSpec> = vec![];
        let n = 3 + r.idx(14);
        for _ in 0..n {
            let path = r.pick(PATHS).to_string();
            if types.iter().all(|t| t.path != path) {
                let vars = vars(r, nicons, &path);
                types.push(TypeSpec { path, vars });
            }
        }
        for p in REQUIRED {
            if r.chance(2, 3) {
                let vars = vars(r, nicons, p);
                types.push(TypeSpec { path: p.to_string(), vars });
            }
        }
        let all: Vec<String> = types.iter().map(|t| t.path.clone()).chain(REQUIRED.iter().map(|s| s.to_string())).collect();
        let mut out = RenderSpec { types, icons, maps: vec![], passes: vec![], layers: vec![], hide: vec![], config: r.chance(1, 2) };
        if out.config {
            for _ in 0..r.idx(4) {
                let p = (r.pick(PASSES).to_string(), r.chance(1, 2));
                if out.passes.iter().all(|q| q.0 != p.0) {
                    out.passes.push(p);
                }
            }
            let paths = ["/turf", "/turf/closed", "/turf/closed/wall", "/obj", "/obj/structure", "/obj/structure/closet", "/obj/structure/closet/crate", "/obj/machinery", "/obj/machinery/power"];
            for p in paths {
                if r.chance(1, 2) {
                    out.layers.push((p.to_string(), r.pick(&["-9.0", "-2.5", "0.0", "1.5", "3.0", "7.0", "11.0"]).to_string()));
                }
                if r.chance(1, 12) {
                    out.hide.push(p.to_string());
                }
            }
        }
        // how often a map mentions a type the code does not have
        let unknown = if r.chance(1, 6) { 10 } else { 1 };
        for m in 0..maps {
            let z = 1 + r.idx(4);
            let side = (max_cells / z).max(1);
            let x = 1 + r.idx(side.min(7));
            let y = (1 + r.idx(7)).min((side / x).max(1));
            let mut dict = vec![];
            for k in 0..1 + r.idx(9) {
                let np = 1 + r.idx(4);
                let mut prefabs = vec![];
                for _ in 0..np {
                    let path = if r.chance(unknown, 30) { r.pick(UNKNOWN).to_string() } else { r.pick(&all).clone() };
                    let mut pv = vec![];
                    if r.chance(1, 4) {
                        for (k, e) in vars(r, nicons, &path) {
                            if r.chance(1, 4) {
                                pv.push((k, e));
                            }
                        }
                    }
                    prefabs.push(PrefabSpec { path, vars: pv });
                }
                dict.push((k as u16, prefabs));
            }
            let nd = dict.len();
            let spec = MapSpec { dim: (x, y, z), dict, cells: (0..x * y * z).map(|_| r.idx(nd)).collect() };
            let style = Style::gen(r);
            // maps in different directories may have the same file name
            let name = match r.below(14) {
                0 => format!("sub{m}/m0"),
                1 => format!("sub{m}/m1"),
                2 => "m0_2".into(),
                _ => format!("m{m}"),
            };
            let path = format!("{ROOT}/_maps/{name}.dmm");
            if out.maps.iter().all(|n| n.0 != path) {
                out.maps.push((path, spec, style));
            }
        }
        out
    }

    /// Whether no two maps have the same file name.
    pub fn distinct_names(&self) -> bool {
        let mut v: Vec<&str> = self.maps.iter().map(|m| m.0.rsplit('/').next().unwrap()).collect();
        v.sort();
        v.windows(2).all(|w| w[0] != w[1])
    }

    pub fn dme(&self) -> String {
        let mut s = String::from("/atom\n");
        for d in DECLARED {
            s.push_str(&format!("\tvar/{d}\n"));
        }
        for t in &self.types {
            s.push_str(&format!("{}\n", t.path));
            for (k, e) in &t.vars {
                s.push_str(&format!("\t{k} = {e}\n"));
            }
            if t.vars.is_empty() {
                s.push_str("\tname = \"x\"\n");
            }
        }
        for p in REQUIRED {
            s.push_str(&format!("{p}\n\tname = \"r\"\n"));
        }
        s
    }
    pub fn toml(&self) -> String {
        let mut s = String::new();
        if !self.hide.is_empty() {
            s.push_str(&format!("[map_renderer]\nhide_invisible = [{}]\n", self.hide.iter().map(|h| format!("\"{h}\"")).collect::<Vec<_>>().join(", ")));
        }
        s.push_str("[map_renderer.render_passes]\n");
        for (p, b) in &self.passes {
            s.push_str(&format!("{p} = {b}\n"));
        }
        s.push_str("[map_renderer.fancy_layers]\n");
        for (p, l) in &self.layers {
            s.push_str(&format!("\"{p}\" = {l}\n"));
        }
        s
    }
    /// Put everything into the simulated file system.
    pub fn install(&self) {
        simos::add_dir(ROOT);
        simos::set_cwd("/w");
        simos::add_file(DME, self.dme().as_bytes());
        if self.config {
            simos::add_file(&format!("{ROOT}/SpacemanDMM.toml"), self.toml().as_bytes());
        }
        for (p, i) in &self.icons {
            simos::add_file(&format!("{ROOT}/{p}"), &i.bytes());
        }
        for (p, m, st) in &self.maps {
            simos::add_file(p, &m.text(st));
        }
    }
    pub fn shrink(&self) -> Vec<RenderSpec> {
        let mut v = vec![];
        for i in 0..self.maps.len() {
            if self.maps.len() > 1 {
                let mut c = self.clone();
                c.maps.remove(i);
                v.push(c);
            }
        }
        for i in 0..self.maps.len() {
            for m in self.maps[i].1.shrink().into_iter().take(60) {
                let mut c = self.clone();
                c.maps[i].1 = m;
                v.push(c);
            }
        }
        for i in 0..self.types.len() {
            let mut c = self.clone();
            c.types.remove(i);
            v.push(c);
            for k in 0..self.types[i].vars.len() {
                let mut c = self.clone();
                c.types[i].vars.remove(k);
                v.push(c);
            }
        }
        for i in 0..self.icons.len() {
            let mut c = self.clone();
            c.icons.remove(i);
            v.push(c);
        }
        if self.config {
            v.push(RenderSpec { config: false, ..self.clone() });
            for i in 0..self.layers.len() {
                let mut c = self.clone();
                c.layers.remove(i);
                v.push(c);
            }
            for i in 0..self.passes.len() {
                let mut c = self.clone();
                c.passes.remove(i);
                v.push(c);
            }
            for i in 0..self.hide.len() {
                let mut c = self.clone();
                c.hide.remove(i);
                v.push(c);
            }
        }
        v
    }
}

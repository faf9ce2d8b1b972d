//! A12: updating a document replaces what is between snippet markers, and nothing else.
use crate::{ensure, rng::Rng, Suite, R};
use serde_json::json;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use weaver_forge::config::{Params, WeaverConfig};
use weaver_forge::file_loader::FileSystemFileLoader;
use weaver_forge::output_processor::OutputProcessor;
use weaver_forge::v2::registry::ForgeResolvedRegistry;
use weaver_forge::OutputTarget;
use weaver_resolved_schema::v2::ResolvedTelemetrySchema as V2Schema;
use weaver_resolved_schema::ResolvedTelemetrySchema;
use weaver_semconv_gen::{MarkdownSnippetGenerator, SnipperGeneratorV2, SnippetGenerator};

pub fn suites() -> Vec<Suite> {
    vec![Suite { name: "document", total: None, run: case }]
}
static N: AtomicU64 = AtomicU64::new(0);

struct Dir(PathBuf);
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
struct Gens {
    v1: SnippetGenerator,
    v2: SnipperGeneratorV2,
    _dir: Dir,
}
fn output(dir: &Dir, target: &str) -> OutputProcessor {
    let loader = FileSystemFileLoader::try_new(dir.0.clone(), target).expect("loader");
    let config = WeaverConfig::try_from_loader(&loader).expect("config");
    OutputProcessor::from_template_config(config, loader, Params::default(), OutputTarget::Stdout).expect("output")
}
fn gens() -> Gens {
    let dir = Dir(std::env::temp_dir().join(format!("vharness-a12-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed))));
    for (t, f, text) in [
        ("v1", "snippet.md.j2", "[{{ group.id }} {{ snippet_type }} {{ tag_filter | join('+') }} {{ attribute_registry_base_url }}]"),
        ("v2", "snippet.md.j2", "[{{ a }}]"),
        ("v2", "other.j2", "line 1\n<{{ a }}>"),
    ] {
        let d = dir.0.join(t);
        std::fs::create_dir_all(&d).expect("templates");
        std::fs::write(d.join(f), text).expect("template");
        std::fs::write(d.join("weaver.yaml"), "templates: []\n").expect("config");
    }
    let g = |id: &str| json!({"id": id, "type": "attribute_group", "brief": "b", "attributes": [], "is_v2": false});
    let mut schema = ResolvedTelemetrySchema::new("https://e.com/1.0.0", "r", "https://e.com");
    schema.registry.groups = ["g.a", "g.b"].iter().map(|i| serde_json::from_value(g(i)).expect("group")).collect();
    let none = json!({"attributes": [], "attribute_groups": [], "metrics": [], "spans": [], "events": [], "entities": []});
    let mut forge = json!({"schema_url": "https://e.com/1.0.0", "registry": none, "refinements": {"metrics": [], "spans": [], "events": [], "entities": []}, "dependencies": []});
    let f2: ForgeResolvedRegistry = serde_json::from_value(forge.clone()).expect("forge");
    forge["file_format"] = json!("resolved/2.0.0");
    forge["attribute_catalog"] = json!([]);
    let s2: V2Schema = serde_json::from_value(forge).expect("v2 schema");
    Gens { v1: SnippetGenerator::new(schema, output(&dir, "v1")), v2: SnipperGeneratorV2::new(s2, f2, output(&dir, "v2")), _dir: dir }
}
thread_local! { static GENS: Gens = gens(); }

/// a line and, for each format, what it is
#[derive(Clone, Copy, PartialEq, Debug)]
enum K {
    Text,
    /// opens a semconv snippet of the group, type and tags
    Sem(&'static str, &'static str, &'static str),
    /// opens one that cannot be rendered
    SemBad,
    /// opens a weaver snippet with this text
    Wea(&'static str),
    WeaBad,
    EndSem,
    EndWea,
}
const LINES: [(&str, K); 31] = [
    ("some text", K::Text),
    ("", K::Text),
    ("  indented", K::Text),
    ("| a | table |", K::Text),
    ("trailing spaces  ", K::Text),
    ("<!-- a comment -->", K::Text),
    ("<!-- semconv g.a -->", K::Sem("g.a", "attribute_table", "")),
    ("<!--semconv g.b-->", K::Sem("g.b", "attribute_table", "")),
    ("<!-- semconv g.a(full) -->", K::Sem("g.a", "attribute_table", "")),
    ("<!-- semconv g.b(metric_table,tag=x,tag=y) -->", K::Sem("g.b", "metric_table", "x+y")),
    ("<!-- semconv g.a -->  ", K::Sem("g.a", "attribute_table", "")),
    ("<!-- semconv g.none -->", K::SemBad),
    ("<!-- semconv g.a --> text", K::Text),
    (" <!-- semconv g.a -->", K::Text),
    ("<!-- semconv -->", K::Text),
    ("<!-- semconv g.a and more -->", K::Text),
    ("<!-- semconv g.a", K::Text),
    ("text <!-- semconv g.a -->", K::Text),
    ("<!-- endsemconv -->", K::EndSem),
    ("<!--endsemconv-->", K::EndSem),
    ("<!-- endsemconv -->  ", K::EndSem),
    ("<!-- endsemconv --> text", K::Text),
    ("text <!-- endsemconv -->", K::Text),
    ("<!-- endsemconv x -->", K::Text),
    ("<!-- weaver {a: .schema_url} -->", K::Wea("[https://e.com/1.0.0]\n")),
    ("<!-- weaver template:other.j2 {a: 1} -->", K::Wea("line 1\n<1>\n")),
    ("<!-- weaver template:none.j2 . -->", K::WeaBad),
    ("<!-- endweaver -->", K::EndWea),
    ("<!--  endweaver-->", K::EndWea),
    ("<!-- endweaver", K::Text),
    ("endsemconv", K::Text),
];
/// a document of the given lines, updated; None: it cannot be
fn updated(v2: bool, url: Option<&str>, ls: &[usize]) -> Option<String> {
    let mut out = String::new();
    let mut end: Option<K> = None;
    for l in ls {
        let (text, k) = LINES[*l];
        if let Some(e) = end {
            if k == e {
                end = None;
            } else {
                continue;
            }
            out += text;
            out += "\n";
            continue;
        }
        out += text;
        out += "\n";
        match k {
            K::Sem(..) | K::SemBad if v2 => return None,
            K::SemBad => return None,
            K::Sem(g, t, tags) => {
                out += &format!("[{g} {t} {tags} {}]\n", url.unwrap_or(""));
                end = Some(K::EndSem);
            }
            K::Wea(_) | K::WeaBad if !v2 => return None,
            K::WeaBad => return None,
            K::Wea(t) => {
                out += t;
                end = Some(K::EndWea);
            }
            K::Text | K::EndSem | K::EndWea => {}
        }
    }
    if end.is_some() {
        None
    } else {
        Some(out)
    }
}
fn case(r: &mut Rng, _: u64) -> R {
    let v2 = r.flip();
    let url = if r.flip() { Some("/url") } else { None };
    let mut ls: Vec<usize> = vec![];
    for _ in 0..r.below(6) {
        match r.below(3) {
            0 => ls.push(r.below(LINES.len())),
            _ => {
                // a whole snippet, mostly
                let opens: Vec<usize> = (0..LINES.len()).filter(|i| if v2 { matches!(LINES[*i].1, K::Wea(_)) } else { matches!(LINES[*i].1, K::Sem(..)) }).collect();
                ls.push(*r.pick(&opens));
                for _ in 0..r.below(3) {
                    ls.push(r.below(LINES.len()));
                }
                let ends: Vec<usize> = (0..LINES.len()).filter(|i| LINES[*i].1 == if v2 { K::EndWea } else { K::EndSem }).collect();
                if r.chance(9, 10) {
                    ls.push(*r.pick(&ends));
                }
            }
        }
    }
    let crlf = r.chance(1, 5);
    let mut text = String::new();
    let n = ls.len();
    for (i, l) in ls.iter().enumerate() {
        text += LINES[*l].0;
        // a last empty line without its line end is no line
        if i + 1 < n || LINES[*l].0.is_empty() || r.chance(4, 5) {
            text += if crlf { "\r\n" } else { "\n" };
        }
    }
    let want = updated(v2, url, &ls);
    let input = json!({"v2": v2, "text": text, "url": url});
    let dir = Dir(std::env::temp_dir().join(format!("vharness-a12-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed))));
    std::fs::create_dir_all(&dir.0).expect("scratch");
    let file = dir.0.join("doc.md");
    std::fs::write(&file, &text).expect("document");
    let name = file.display().to_string();
    let read = || std::fs::read_to_string(&file).expect("document");
    GENS.with(|g| -> R {
        let gen: &dyn MarkdownSnippetGenerator = if v2 { &g.v2 } else { &g.v1 };
        let got = gen.update_markdown_contents(&text.replace("\r\n", "\n"), url).ok();
        ensure!(got == want, input, "the updated text is {got:?}, expected {want:?}");
        let dry = gen.update_markdown(&name, true, url);
        ensure!(read() == text, input, "a dry run changed the file");
        let same = want.as_ref() == Some(&text.replace("\r\n", "\n"));
        ensure!(dry.is_ok() == same, input, "a dry run says up to date: {}, expected {same}", dry.is_ok());
        let run = gen.update_markdown(&name, false, url);
        ensure!(run.is_ok() == want.is_some(), input, "the update succeeds: {}", run.is_ok());
        let now = read();
        ensure!(now == *want.as_ref().unwrap_or(&text), input, "after the update the file holds {now:?}");
        if want.is_some() {
            ensure!(gen.update_markdown(&name, true, url).is_ok(), input, "an updated file is not up to date");
            ensure!(gen.update_markdown(&name, false, url).is_ok() && read() == now, input, "a second update changed the file");
        }
        Ok(())
    })
}

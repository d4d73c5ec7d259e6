#!/usr/bin/env python3
"""mkapi.py: writes the `proved_in` contract files in units/lib from the units that prove them,
so that a contract used elsewhere is word for word the proved one."""
import os, re, sys
U = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "units")
def contracts(unit):
    """target line -> contract text, without proof parts"""
    out = {}
    t = open(os.path.join(U, unit + ".vx")).read()
    for m in re.finditer(r"^//@fn (\S+)([^\n]*)\n(.*?)^//@endfn", t, re.M | re.S):
        body = re.split(r"^//@", m.group(3), flags=re.M)[0]
        opts = " ".join(o for o in m.group(2).split() if not o.startswith("nloops=") and o != "bindtail")
        out[m.group(1)] = f"//@fn {m.group(1)} {opts}".rstrip() + "\n" + body + "//@endfn\n"
    return out
def write(name, head, unit, targets):
    c = contracts(unit)
    t = head + "verus! {\n//@proved_in " + unit + "\n" + "".join(c[x] for x in targets) + "//@endproved\n}\n"
    open(os.path.join(U, "lib", name), "w").write(t)
L = "lx::Lexer::"
write("streamapi.rs", "// ---- streamapi.rs: the contracts of Lexer's methods, proved in unit `lexstream` (written by tools/mkapi.py) ----\n",
      "lexstream", [L + x for x in ("new", "current", "current_text", "lookahead_nth", "bump")])
P = "pa::Parser::"
write("parserapi.rs", "// ---- parserapi.rs: the contracts of Parser and Marker, proved in unit `marker` (written by tools/mkapi.py) ----\n",
      "marker", [P + x for x in ("new", "finish", "current", "nth", "at", "nth_at", "at_ts", "start", "tokens", "error", "eat", "bump", "bump_any", "bump_remap",
      "expect", "error_and_skip_until", "err_recover", "err_and_bump")] + ["mk::Marker::complete", "mk::Marker::abandon", "mk::CompletedMarker::precede", "mk::CompletedMarker::kind"])
write("tokensetapi.rs", "// ---- tokensetapi.rs: the contracts of TokenSet, proved in unit `kinds` (written by tools/mkapi.py) ----\n",
      "kinds", ["ts::TokenSet::" + x for x in ("contains", "union", "new")])
write("grammarapi.rs", "// ---- grammarapi.rs: the contract of the grammar's entry point, proved in unit `grammar` (written by tools/mkapi.py) ----\n",
      "grammar", ["gr::root"])
S = "tt::TextTreeSink::"
write("sinkapi.rs", "// ---- sinkapi.rs: the contracts of TextTreeSink, proved in unit `sink` (written by tools/mkapi.py) ----\n",
      "sink", [S + x for x in ("new", "token", "start_node", "finish_node", "error", "finish")] + ["se::SyntaxError::range"])
write("filesetapi.rs", "// ---- filesetapi.rs: the contract of FileSetConfig::partition, proved in unit `fileset` (written by tools/mkapi.py) ----\n",
      "fileset", ["fs::FileSetConfig::partition"])
write("onerootapi.rs", "// ---- onerootapi.rs: the contract of FileSetConfig::default, proved in unit `fileset` (written by tools/mkapi.py) ----\n",
      "fileset", ["fs::FileSetConfig::default"])
write("sendapi.rs", "// ---- sendapi.rs: the contract of GlobalState::send, proved in unit `serve` (written by tools/mkapi.py) ----\n",
      "serve", ["gs::GlobalState::send"])
write("vfsapi.rs", "// ---- vfsapi.rs: the contracts of Vfs, proved in unit `vfs` (written by tools/mkapi.py) ----\n",
      "vfs", ["vf::ChangedFile::is_created_or_deleted"] + ["vf::Vfs::" + x for x in ("file_id", "file_path", "file_contents", "set_file_contents", "take_changes")])
write("normalizeapi.rs", "// ---- normalizeapi.rs: the contract of LineEndings::normalize, proved in unit `normalize` (written by tools/mkapi.py) ----\n",
      "normalize", ["sli::LineEndings::normalize"])
write("absorbapi.rs", "// ---- absorbapi.rs: the contract of GlobalState::process_changes, proved in unit `absorb` (written by tools/mkapi.py) ----\n",
      "absorb", ["gs::GlobalState::process_changes"])
write("memdocsapi.rs", "// ---- memdocsapi.rs: the contracts of MemDocs, proved in unit `memdocs` (written by tools/mkapi.py) ----\n",
      "memdocs", ["md::MemDocs::" + x for x in ("insert", "remove", "get", "get_mut", "iter", "take_changes")] + ["md::DocumentData::new"])
write("diagapi.rs", "// ---- diagapi.rs: the contracts of DiagnosticCollection, proved in unit `diagnostics` (written by tools/mkapi.py) ----\n",
      "diagnostics", ["dg::DiagnosticCollection::" + x for x in ("set_native_diagnostics", "diagnostics_for", "take_changes")])
write("docapi.rs", "// ---- docapi.rs: the contract of apply_document_changes, proved in unit `docedits` (written by tools/mkapi.py) ----\n",
      "docedits", ["lu::apply_document_changes"])
write("pathsapi.rs", "// ---- pathsapi.rs: the contract of VfsPath::from, proved in unit `paths` (written by tools/mkapi.py) ----\n",
      "paths", ["vp::VfsPath::from", "vp::VfsPath::as_path"])
write("pathbufapi.rs", "// ---- pathbufapi.rs: the contracts of VfsPath::as_path and AbsPath::to_path_buf, proved in unit `paths` (written by tools/mkapi.py) ----\n",
      "paths", ["vp::VfsPath::as_path", "pa::AbsPath::to_path_buf"])
write("serveapi.rs", "// ---- serveapi.rs: the contracts of requests and notifications, proved in unit `serve` (written by tools/mkapi.py) ----\n",
      "serve", ["gs::GlobalState::send", "gs::GlobalState::respond", "fp::vfs_path", "ml::GlobalState::on_request", "ml::GlobalState::on_notification"])
write("protoapi.rs", "// ---- protoapi.rs: the contracts of the protocol conversions, proved in unit `proto` (written by tools/mkapi.py) ----\n",
      "proto", ["tp::range", "cf::Config::offset_encoding"])
write("offersapi.rs", "// ---- offersapi.rs: the contract of supports_utf8, proved in unit `proto` (written by tools/mkapi.py) ----\n",
      "proto", ["le::supports_utf8"])
write("publishapi.rs", "// ---- publishapi.rs: the contract of update_diagnostics, proved in unit `publish` (written by tools/mkapi.py) ----\n",
      "publish", ["ml::GlobalState::update_diagnostics"])
write("turnapi.rs", "// ---- turnapi.rs: the contract of a turn of the main loop, proved in unit `turn` (written by tools/mkapi.py) ----\n",
      "turn", ["ml::GlobalState::handle_event"])
write("poolapi.rs", "// ---- poolapi.rs: the contracts of the pool's functions, proved in unit `pool` (written by tools/mkapi.py) ----\n",
      "pool", ["tk::TaskPool::new", "tk::TaskPool::spawn", "tk::TaskPool::spawn_with_sender"])

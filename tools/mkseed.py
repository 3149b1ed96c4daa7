#!/usr/bin/env python3
"""Makes /verif/seeded/<id> from a description (a .py file defining SEEDS) and verifies it in a scratch copy.
usage: mkseed.py FILE [id ...]"""
import sys,os,subprocess,json,shutil,runpy
DEMO='''#!/bin/bash
# Run in the repository's root. Exit 0: as it should be, nonzero: broken.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d /tmp/yary-demo.XXXXXX) || exit 3
trap 'rm -rf -- "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
cat > "$tmp/Cargo.toml" <<E
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
yary = { path = "$repo" }
[workspace]
E
cd "$tmp" || exit 3
export CARGO_TARGET_DIR="$tmp/target" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
cargo build --offline -q || exit 3
timeout 60 "$tmp/target/debug/demo"
'''
COMMON='''#![allow(dead_code)]
use yary::event::types::{EventData, NodeKind, ScalarLike};
use yary::event::flag::{Flags, O_LAZY, O_NIL};

fn tag(t: &Option<(yary::event::types::Slice, yary::event::types::Slice)>) -> String {
    t.as_ref().map_or(String::new(), |(a, b)| format!(" <{}|{}>", a, b))
}
fn anchor(a: &Option<yary::event::types::Slice>) -> String {
    a.as_ref().map_or(String::new(), |a| format!(" &{}", a))
}
fn kind(k: &NodeKind) -> String {
    format!("{:?}", k)
}

/// The events, one per line; the last is "error" if there was one
fn run<R: yary::reader::Read>(r: &R, flags: Flags) -> Vec<String> {
    let mut out = vec![];
    for e in yary::event::from_reader_with(r, flags) {
        let e = match e {
            Ok(e) => e,
            Err(e) => {
                out.push(format!("error {:?}", e.classify()));
                break;
            }
        };
        out.push(match e.data() {
            EventData::StreamStart(_) => "stream".into(),
            EventData::StreamEnd => "end".into(),
            EventData::DocumentStart(d) => {
                let mut tags: Vec<String> = d.directives.tags.iter().map(|(a, b)| format!("{}={}", a, b)).collect();
                tags.sort();
                format!("doc {} {:?} {}", !d.implicit, d.directives.version, tags.join(" "))
            }
            EventData::DocumentEnd(d) => format!("enddoc {}", !d.implicit),
            EventData::MappingStart(m) => format!("map {}{}{}", kind(&m.kind), anchor(&m.anchor), tag(&m.tag)),
            EventData::SequenceStart(m) => format!("seq {}{}{}", kind(&m.kind), anchor(&m.anchor), tag(&m.tag)),
            EventData::MappingEnd => "endmap".into(),
            EventData::SequenceEnd => "endseq".into(),
            EventData::Alias(a) => format!("alias {}", a.name),
            EventData::Scalar(s) => match s.content.clone().evaluate() {
                Ok(c) => format!("{:?} {:?} {:?}{}{}", s.kind, c.style(), c.data(), anchor(&s.anchor), tag(&s.tag)),
                Err(_) => "faulty scalar".into(),
            },
        });
        if out.len() > 100000 {
            out.push("runaway".into());
            break;
        }
    }
    out
}
fn events(t: &str) -> Vec<String> {
    run(&yary::reader::from_utf8(t), O_NIL)
}
fn lazy(t: &str) -> Vec<String> {
    run(&yary::reader::from_utf8(t), O_LAZY)
}
struct Pieces(Vec<u8>, usize, usize);
impl std::io::Read for Pieces {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.2).min(self.0.len() - self.1);
        b[..n].copy_from_slice(&self.0[self.1..self.1 + n]);
        self.1 += n;
        Ok(n)
    }
}
fn read(t: &str, piece: usize) -> Vec<String> {
    run(&yary::reader::from_read(Pieces(t.as_bytes().to_vec(), 0, piece)), O_NIL)
}
/// The scalars' contents
fn scalars(t: &str) -> Vec<String> {
    events(t).iter().filter_map(|l| l.split_once('"').map(|x| format!("\\"{}", x.1))).collect()
}
fn rejected(e: &[String]) -> bool {
    e.last().map_or(false, |l| l.starts_with("error"))
}

'''
def sh(c,cwd=None,**k):
    return subprocess.run(c,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def main():
    seeds=runpy.run_path(sys.argv[1])['SEEDS']; only=sys.argv[2:]
    W='/tmp/seedwork'; base=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','seeded')
    for s in seeds:
        sid=s['id']
        if only and sid not in only: continue
        if not only and os.path.exists(base+'/'+sid+'/meta.json'): continue
        if not os.path.exists(W): sh('cp -a /repo %s'%W)
        sh('git checkout -q --detach . ; git checkout -q -- . ; git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD',cwd=W)
        d='/tmp/seedout/'+sid; sh('mkdir -p '+d)
        open(d+'/main.rs','w').write(COMMON+s['demo'].strip()+'\n')
        open(d+'/demo.sh','w').write(DEMO); os.chmod(d+'/demo.sh',0o755)
        p=sh('bash %s/demo.sh'%d,cwd=W)
        if p.returncode!=0: print(sid,'DEMO FAILS ON CLEAN',p.returncode,p.stdout[-1500:]); continue
        bad=False
        for f,old,new in s['edits']:
            t=open(W+'/'+f).read()
            if t.count(old)!=1: print(sid,'EDIT MATCHES',t.count(old),'times in',f,repr(old)[:80]); bad=True; break
            open(W+'/'+f,'w').write(t.replace(old,new))
        if bad: continue
        patch=sh('git diff --no-color',cwd=W).stdout
        open(d+'/patch.diff','w').write(patch)
        p=sh('bash %s/demo.sh'%d,cwd=W)
        if p.returncode in (0,3): print(sid,'DEMO does not fail with the patch',p.returncode,p.stdout[-1500:]); continue
        tests=sh('sed "s#/repo#%s#g" /opt/vp/test.sh > /tmp/seedtest.sh; bash /tmp/seedtest.sh /tmp/seedtest.json'%W,cwd=W)
        try:
            b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seedtest.json'))
            miss=sorted(set(b['stable'])-set(o['passed']))
        except Exception as e: miss=['?'+str(e)]
        if miss: print(sid,'TESTS FAIL',miss[:6]); continue
        json.dump({"property":s['property'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(d+'/meta.json','w'),indent=1)
        shutil.rmtree(base+'/'+sid,ignore_errors=True); os.makedirs(base,exist_ok=True); shutil.copytree(d,base+'/'+sid)
        print(sid,'ok')
main()

//! C23: the command against a stand-in for Google's servers.
use crate::cmd::{self, Entry, Ran, Snapshot};
use crate::google::{identity, Answer, Request, Server, Step, ACCOUNT_KEY};
use crate::rt::{CaseResult, Ctx, Fail, Outcome, Prop, Tier};
use csvpp::verif::google_batch_update;
use csvpp::{CliArgs, Compiler};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::Path;

const SECRETS: [&str; 5] = ["Qp8Xju46avkYmnng", "REFRESHSECRET", "CLIENTSECRET", "ACCESSSECRET", "PRIVATE"];

/// What a file with credentials has in it
fn credentials(kind: &str, who: &str) -> Option<Entry> {
    let service = json!({
        "type": "service_account", "project_id": "p", "private_key_id": "k", "private_key": ACCOUNT_KEY, "client_email": who, "client_id": "1",
        "auth_uri": "https://accounts.google.com/o/oauth2/auth", "token_uri": "https://oauth2.googleapis.com/token",
        "auth_provider_x509_cert_url": "https://www.googleapis.com/oauth2/v1/certs", "client_x509_cert_url": "https://www.googleapis.com/robot/v1/metadata/x509/p"
    });
    let user = json!({"type": "authorized_user", "client_id": "c", "client_secret": format!("CLIENTSECRET{who}"), "refresh_token": format!("REFRESHSECRET{who}")});
    let with = |v: &Value, k: &str, x: Option<Value>| {
        let mut v = v.clone();
        match x {
            Some(x) => v[k] = x,
            None => {
                v.as_object_mut().unwrap().remove(k);
            }
        }
        v.to_string().into_bytes()
    };
    Some(match kind {
        "service" => Entry::File(service.to_string().into_bytes()),
        "user" => Entry::File(user.to_string().into_bytes()),
        "missing" => return None,
        "directory" => Entry::Dir,
        "empty" => Entry::File(vec![]),
        "cut" => Entry::File(service.to_string().into_bytes()[..200].to_vec()),
        "no object" => Entry::File(b"[1, 2]".to_vec()),
        "other type" => Entry::File(with(&service, "type", Some(json!("external_account")))),
        "no type" => Entry::File(with(&service, "type", None)),
        "no key" => Entry::File(with(&service, "private_key", None)),
        "bad key" => Entry::File(with(&service, "private_key", Some(json!("PRIVATE")))),
        "no token" => Entry::File(with(&user, "refresh_token", None)),
        _ => unreachable!(),
    })
}
const KINDS: [&str; 12] = ["service", "user", "missing", "directory", "empty", "cut", "no object", "other type", "no type", "no key", "bad key", "no token"];
fn good(kind: &str) -> bool {
    matches!(kind, "service" | "user")
}

const OTHER_CA: &str = include_str!("../data/other_ca.pem");

const PLACES: [&str; 3] = ["flag.json", "env.json", ".config/gcloud/application_default_credentials.json"];

/// what the account of a place is called in requests for tokens
fn name(kind: &str, place: usize) -> String {
    let who = ["flag@x", "env@x", "home@x"][place];
    if kind == "user" {
        format!("REFRESHSECRET{who}")
    } else {
        who.to_string()
    }
}

struct Setting {
    /// the kinds of the files that the flag, the variable and nothing name; none if it isn't given
    kinds: [Option<&'static str>; 3],
    source: &'static str,
    id: &'static str,
    args: Vec<&'static str>,
    /// how the spreadsheet is, none if it doesn't exist
    existing: Option<Value>,
    /// what goes wrong at which request of its kind
    fault: Option<(Step, usize, Answer)>,
    /// the file with the certificates that count
    certificates: &'static str,
}

fn default_setting() -> Setting {
    Setting { kinds: [Some("service"), None, None], source: SOURCES[0].0, id: "abc123", args: vec![], existing: Some(json!({})), fault: None, certificates: crate::google::CA }
}

/// and whether it compiles
const SOURCES: [(&str, bool); 6] = [
    ("x := 1\n---\n[[t=b]]a,=x + B1\n![[f=3]]\"é, 'q'\",[[n='note']]\n", true),
    ("a\n", true),
    ("", true),
    ("=1 +\n", false),
    ("use nothing\n---\na\n", false),
    ("fn f(a) a\n---\n\"=f(1, 2)\"\n", false),
];

fn existing() -> Vec<Option<Value>> {
    let cell = |t: &str| json!({"userEnteredValue": {"stringValue": t}, "formattedValue": t, "note": "kept"});
    let tab = |title: &str, id: i64, cells: Value| json!({"properties": {"title": title, "sheetId": id}, "data": [{"rowData": [{"values": cells}]}]});
    vec![
        None,
        Some(json!({})),
        Some(json!({"spreadsheetId": "abc123", "sheets": [tab("Other", 5, json!([cell("o")]))]})),
        Some(json!({"sheets": [tab("Other", 5, json!([cell("o")])), tab("m", 9, json!([cell("p"), {}, cell("r"), cell("s")]))]})),
    ]
}

/// what the answer to a step is when nothing's wrong
fn answer(step: Option<Step>, existing: Option<&Value>, tokens: usize) -> Answer {
    match (step, existing) {
        (Some(Step::Token), _) => Answer::Say(200, json!({"access_token": format!("ACCESSSECRET{tokens}"), "expires_in": 3600, "token_type": "Bearer"}).to_string()),
        (Some(Step::Copy), _) => Answer::Say(200, json!({"kind": "drive#file", "id": "copied", "name": "Copy"}).to_string()),
        (Some(Step::Get), None) => Answer::Say(404, json!({"error": {"code": 404, "message": "Requested entity was not found.", "status": "NOT_FOUND"}}).to_string()),
        (Some(Step::Get), Some(v)) => Answer::Say(200, v.to_string()),
        (Some(Step::Update), None) => Answer::Say(404, json!({"error": {"code": 404, "message": "Requested entity was not found.", "status": "NOT_FOUND"}}).to_string()),
        (Some(Step::Update), _) => Answer::Say(200, json!({"spreadsheetId": "abc123", "replies": [{}]}).to_string()),
        (None, _) => Answer::Say(404, "{}".into()),
    }
}

/// runs it; all that was asked, and the files before and after
fn run_it(server: &Server, dir: &Path, s: &Setting) -> Result<(Ran, Vec<Request>, Snapshot, Snapshot), Fail> {
    let mut before = Snapshot::from([("m.csvpp".into(), Entry::File(s.source.into())), ("ca.pem".into(), Entry::File(s.certificates.into()))]);
    for (i, k) in s.kinds.iter().enumerate() {
        if let Some(e) = k.and_then(|k| credentials(k, ["flag@x", "env@x", "home@x"][i])) {
            before.insert(PLACES[i].into(), e);
            if i == 2 {
                for d in [".config", ".config/gcloud"] {
                    before.insert(d.into(), Entry::Dir);
                }
            }
        }
    }
    cmd::restore(dir, &before);
    let mut args = vec!["--no-cache", "-g", s.id];
    if s.kinds[0].is_some() {
        args.extend(["--google-account-credentials", PLACES[0]]);
    }
    args.extend(&s.args);
    args.push("m.csvpp");
    let mut env = vec![("VERIF_PORT", server.port.to_string()), ("SSL_CERT_FILE", dir.join("ca.pem").display().to_string())];
    if s.kinds[1].is_some() {
        env.push(("GOOGLE_APPLICATION_CREDENTIALS", PLACES[1].into()));
    }
    let (existing, fault) = (s.existing.clone(), s.fault.clone());
    let mut count: BTreeMap<Option<Step>, usize> = BTreeMap::new();
    let mut given = vec![];
    let (ran, seen) = server.during(
        Box::new(move |r| {
            let step = r.step();
            if step != Some(Step::Token) && !given.contains(&r.authorization) {
                return Answer::Say(401, json!({"error": {"code": 401, "message": "who?", "status": "UNAUTHENTICATED"}}).to_string());
            }
            let n = count.entry(step).or_default();
            *n += 1;
            match &fault {
                Some((f, k, a)) if Some(*f) == step && *k == *n - 1 => a.clone(),
                _ => {
                    if step == Some(Step::Token) {
                        given.push(format!("Bearer ACCESSSECRET{n}"));
                    }
                    answer(step, existing.as_ref(), *n)
                }
            }
        }),
        || cmd::start_with(dir, &args, None, &env, None, &["libnet.so"])?.wait(),
    )?;
    Ok((ran, seen, before, cmd::snapshot(dir)))
}

/// what is sent for an update
fn request_for(dir: &Path, s: &Setting) -> Result<Value, Fail> {
    let at = |f: &str| s.args.iter().position(|a| *a == f).map(|i| s.args[i + 1]);
    let compiler = Compiler::try_from(&CliArgs {
        input_filename: dir.join("m.csvpp"),
        google_sheet_id: Some("abc".into()),
        no_cache: true,
        safe: s.args.contains(&"-s"),
        sheet_name: at("-n").map(ToString::to_string),
        x_offset: at("-x").map_or(0, |v| v.parse().unwrap()),
        y_offset: at("-y").map_or(0, |v| v.parse().unwrap()),
        ..CliArgs::default()
    })
    .map_err(|e| Fail::new(format!("MACHINERY: {e}")))?;
    let module = compiler.compile().map_err(|e| Fail::new(format!("MACHINERY: {e}")))?;
    let text = google_batch_update(&compiler, &module, &s.existing.clone().unwrap_or(json!({})).to_string());
    serde_json::from_str(&text).map_err(|e| Fail::new(format!("MACHINERY: {e}")))
}

/// (the client leaves them out)
fn without_nulls(v: Value) -> Value {
    match v {
        Value::Object(o) => o.into_iter().filter(|(_, v)| !v.is_null()).map(|(k, v)| (k, without_nulls(v))).collect(),
        Value::Array(a) => a.into_iter().map(without_nulls).collect(),
        v => v,
    }
}

fn check(ctx: &Ctx, server: &Server, s: &Setting) -> CaseResult {
    let dir = ctx.scratch.join("g");
    std::fs::create_dir_all(&dir).unwrap();
    let (ran, seen, before, after) = run_it(server, &dir, s)?;
    let steps: Vec<Option<Step>> = seen.iter().map(Request::step).collect();
    let show = || format!("asked {:?}, ends with {:?} {:?}", seen.iter().map(|r| format!("{} {}{}", r.method, r.host, r.path)).collect::<Vec<_>>(), ran.status, ran.stderr);
    let fail = |m: &str| Err(Fail::new(format!("{m}: {}", show())));
    ran.check()?;
    if before != after {
        return Err(Fail::new(cmd::difference(&before, &after)));
    }
    if let Some(x) = SECRETS.iter().find(|x| ran.stdout.contains(**x) || ran.stderr.contains(**x)) {
        let at = [&ran.stdout, &ran.stderr].into_iter().flat_map(|t| t.lines()).find(|l| l.contains(x)).unwrap_or("").chars().take(300).collect::<String>();
        return Err(Fail::new(format!("it shows {x}: {at}")));
    }
    // what can't be an ID is refused, or is taken as it is
    if !s.id.chars().all(|c| c.is_alphanumeric() || c == '-' || c == '_') {
        if let Some(r) = seen.iter().find(|r| r.step() != Some(Step::Token) && (r.step().is_none() || r.id() != s.id)) {
            return fail(&format!("{} {} is not about {:?}", r.method, r.path, s.id));
        }
        if ran.ok() && !steps.contains(&Some(Step::Update)) {
            return fail("it succeeds");
        }
        return Ok(Outcome::of(&("no ID", steps, ran.ok())));
    }
    let compiles = SOURCES.iter().find(|x| x.0 == s.source).unwrap().1;
    // whose credentials count
    let chosen = match s.kinds {
        [Some(k), _, _] => Some((k, 0)),
        [None, Some(k), _] => Some((k, 1)),
        [None, None, Some(k)] if k != "missing" => Some((k, 2)),
        _ => None,
    };
    let usable = chosen.filter(|(k, _)| good(k));
    for r in seen.iter().filter(|r| r.step() == Some(Step::Token)) {
        let who = identity(&r.body);
        if usable.map(|(k, i)| name(k, i)) != Some(who.clone()) {
            return fail(&format!("{who} asks for a token"));
        }
    }
    if let (None, Some(r)) = (usable, seen.first()) {
        return fail(&format!("without usable credentials it asks for {}", r.path));
    }
    // what has to be asked: everything up to the first thing that goes wrong
    let backup = s.args.contains(&"-b");
    let plan: &[Step] = if backup { &[Step::Token, Step::Copy, Step::Token, Step::Get, Step::Update] } else { &[Step::Token, Step::Get, Step::Update] };
    let api = |l: &[Step]| l.iter().copied().filter(|s| *s != Step::Token).collect::<Vec<_>>();
    let trusted = s.certificates == crate::google::CA;
    let (mut want, mut ends_well) = (vec![], compiles && usable.is_some() && trusted);
    if ends_well {
        let mut n: BTreeMap<Step, usize> = BTreeMap::new();
        for p in plan {
            want.push(*p);
            let k = n.entry(*p).or_default();
            if matches!(&s.fault, Some((f, i, _)) if f == p && *i == *k) || (s.existing.is_none() && *p == Step::Update) {
                ends_well = false;
                break;
            }
            *k += 1;
        }
    }
    if steps.contains(&None) {
        return fail("it asks for something else");
    }
    // (without a token, the client asks all the same, and is refused)
    let refused = |r: &Request| r.authorization.is_empty() && matches!(s.fault, Some((Step::Token, ..)));
    let got: Vec<Step> = seen.iter().filter_map(|r| r.step().filter(|s| *s == Step::Token || !refused(r))).collect();
    // (a token may be kept, and asked for when it's needed; a failing program may be found out late)
    if ran.ok() != ends_well {
        return fail(if ran.ok() { "it succeeds" } else { "it fails" });
    }
    if compiles && usable.is_some() && api(&got) != api(&want) {
        return fail(&format!("{want:?} has to be asked for"));
    }
    if !compiles && got.iter().any(|g| matches!(g, Step::Copy | Step::Update)) {
        return fail("a program that doesn't compile");
    }
    // the tokens that were given, in the order they were
    let mut given = vec![];
    let (mut tokens, mut sent) = (0, String::new());
    for r in &seen {
        if r.step() == Some(Step::Token) {
            tokens += 1;
            if !matches!(&s.fault, Some((Step::Token, k, _)) if *k == tokens - 1) {
                given.push(format!("Bearer ACCESSSECRET{tokens}"));
            }
            continue;
        }
        if !given.contains(&r.authorization) {
            if refused(r) {
                continue;
            }
            return fail(&format!("{} comes with {:?}", r.path, r.authorization));
        }
        if r.id() != s.id {
            return fail(&format!("{} is about {:?}", r.path, r.id()));
        }
        if r.step() == Some(Step::Get) && !r.path.contains("includeGridData=true") {
            return fail("it does not ask for the cells");
        }
        if r.step() == Some(Step::Update) {
            let body: Value = serde_json::from_str(&r.body).map_err(|e| Fail::new(format!("what it sends is no JSON: {e}")))?;
            let want = without_nulls(request_for(&dir, s)?);
            if body != want {
                return Err(Fail::new(format!("it sends {body}, not {want}")));
            }
            sent.clone_from(&r.body);
        }
    }
    Ok(Outcome::of(&(got, ran.ok(), sent, ran.stderr.lines().next().unwrap_or("").len())))
}

fn faults() -> Vec<Answer> {
    let error = |code: u16, status: &str| Answer::Say(code, json!({"error": {"code": code, "message": "no", "status": status, "errors": [{"reason": "any"}]}}).to_string());
    let mut all = vec![
        error(400, "INVALID_ARGUMENT"),
        error(401, "UNAUTHENTICATED"),
        error(403, "PERMISSION_DENIED"),
        error(404, "NOT_FOUND"),
        error(409, "ABORTED"),
        error(412, "FAILED_PRECONDITION"),
        error(429, "RESOURCE_EXHAUSTED"),
        error(500, "INTERNAL"),
        error(503, "UNAVAILABLE"),
        Answer::Say(500, String::new()),
        Answer::Say(502, "<html>".into()),
        Answer::Say(403, "null".into()),
        Answer::Close,
    ];
    for n in [0, 1, 17, 60, 90] {
        all.push(Answer::Cut(n, json!({"access_token": "ACCESSSECRET", "expires_in": 3600, "token_type": "Bearer", "sheets": [], "replies": []}).to_string()));
    }
    all
}

fn run(ctx: &mut Ctx) {
    let server = Server::start().unwrap_or_else(|e| panic!("{}", e.what));
    let go = |ctx: &mut Ctx, s: Setting| {
        if !ctx.mine() {
            ctx.skip(1);
            return;
        }
        ctx.case(
            || format!("credentials {:?}, source {:?}, id {:?}, {:?}, existing {:?}, fault {:?}, certificates {:?}", s.kinds, s.source, s.id, s.args, s.existing, s.fault, (s.certificates != crate::google::CA).then_some(s.certificates)),
            |c| {
                c.transitions += 1;
                check(c, &server, &s)
            },
        );
    };
    // 1. which credentials
    let given: Vec<Option<&'static str>> = std::iter::once(None).chain(KINDS.map(Some)).collect();
    let few = [None, Some("service"), Some("user"), Some("missing"), Some("empty")];
    for flag in &given {
        for env in if ctx.quick() && flag.is_some() { &few[..] } else { &given[..] } {
            for home in if ctx.quick() && (flag.is_some() || env.is_some()) { &few[..] } else { &given[..] } {
                for args in [vec![], vec!["-b"]] {
                    if ctx.quick() && !args.is_empty() && (env.is_some() || home.is_some()) && flag.is_some() {
                        continue;
                    }
                    go(ctx, Setting { kinds: [*flag, *env, *home], args, ..default_setting() });
                }
            }
        }
    }
    // 2. what goes wrong, where
    for kind in ["service", "user"] {
        for (step, k) in [(Step::Token, 0), (Step::Token, 1), (Step::Copy, 0), (Step::Get, 0), (Step::Update, 0)] {
            for backup in [false, true] {
                if !backup && (step == Step::Copy || k == 1) {
                    continue;
                }
                for a in faults() {
                    // (a spreadsheet that isn't there is another setting)
                    if step == Step::Get && matches!(a, Answer::Say(404, _)) {
                        continue;
                    }
                    for v in ctx.bound(vec!["", "-vvvv"], vec!["", "-v", "-vv", "-vvv", "-vvvv"]) {
                        let mut args = if backup { vec!["-b"] } else { vec![] };
                        if !v.is_empty() {
                            args.push(v);
                        }
                        go(ctx, Setting { kinds: [None, Some(kind), None], args, fault: Some((step, k, a.clone())), existing: existing()[3].clone(), ..default_setting() });
                    }
                }
            }
        }
        // answers that make no sense
        for (step, k) in [(Step::Token, 0), (Step::Copy, 0), (Step::Get, 0), (Step::Update, 0)] {
            for body in ["", "{", "[]", "<html>", "{\"sheets\": 5, \"access_token\": 5, \"id\": 5, \"replies\": 5}"] {
                go(ctx, Setting { kinds: [None, None, Some(kind)], args: if step == Step::Copy { vec!["-b"] } else { vec![] }, fault: Some((step, k, Answer::Say(200, body.into()))), ..default_setting() });
            }
        }
    }
    // certificates that aren't there or aren't the server's
    for certificates in ["", "nothing", OTHER_CA, "-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n", "-----BEGIN CERTIFICATE-----\nAAAA\n"] {
        for kind in ["service", "user"] {
            for args in [vec![], vec!["-b"], vec!["-vvvv", "-b"]] {
                for (source, _) in SOURCES {
                    go(ctx, Setting { source, kinds: [Some(kind), None, None], args: args.clone(), certificates, ..default_setting() });
                }
            }
        }
    }
    // 3. what is sent
    for (source, _) in SOURCES {
        for e in existing() {
            for id in ["abc123", "1", "XyZ", "é1", "1b-C_d-", "_"] {
                for args in [vec![], vec!["-s"], vec!["-b", "-n", "Other"], vec!["-x", "1", "-y", "2"], vec!["-n", "new one", "-b", "-s"]] {
                    for v in ctx.bound(vec![""], vec!["", "-vv", "-vvvv"]) {
                        if ctx.quick() && id != "abc123" && !args.is_empty() {
                            continue;
                        }
                        let mut args = args.clone();
                        if !v.is_empty() {
                            args.push(v);
                        }
                        go(ctx, Setting { source, existing: e.clone(), id, args, ..default_setting() });
                    }
                }
            }
        }
    }
    // (the first ones lead to other resources of the same server)
    for id in ["abc123/values/A1", "a/b", "/abc123", "abc123/", "..", "../x", "abc123/../def", "abc123?x=1", "abc123#x", "abc123:clear", "abc%31", "a%2Fb", "a b", " abc123", "abc123\n", "a\\b", "a,b", "a.b", "a\"b", "a&b=c", "a+b", "a@b"] {
        for args in [vec![], vec!["-b"], vec!["-s"]] {
            for e in [0, 3] {
                go(ctx, Setting { id, args: args.clone(), existing: existing()[e].clone(), ..default_setting() });
            }
        }
    }
    for v in ["-v", "-vv", "-vvv", "-vvvv"] {
        for kind in ["service", "user"] {
            for place in 0..3 {
                let mut kinds = [None; 3];
                kinds[place] = Some(kind);
                go(ctx, Setting { kinds, args: vec![v, "-b"], existing: existing()[3].clone(), ..default_setting() });
            }
        }
    }
}

pub fn prop() -> Prop {
    Prop {
        id: "C23",
        level: "model_checking",
        rule: "the real command runs against a stand-in for Google's servers (names resolve to this machine, certificates are our own): every combination of credentials in the three places, every kind of failure of every request, every source x spreadsheet x options; what was asked, by whom and in which order, the exit status, the files and what is shown are compared with a model; the update that is sent is the request C18 looks at; a state is a sequence of requests and how it ends",
        bounds: |t| if t == Tier::Quick { "13 x 5 x 5 credentials (13^3 in part) with and without backup; files of certificates that are empty, broken or somebody else's; 18 failures x 5 requests x 2 kinds of accounts x 2 verbosities; 6 sources x 4 spreadsheets x 5 options, 6 ids; 22 texts that can't be an ID".into() } else { "13^3 credentials x 2; 18 failures x 5 requests x 2 x 5 verbosities; 6 sources x 4 spreadsheets x 6 ids x 5 options x 3 verbosities; 22 texts that can't be an ID".into() },
        run,
        hang_s: 60,
        workers: 0,
        assumptions: &["Google's servers answer as their documentation says"],
    }
}

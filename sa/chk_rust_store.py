"""R02: reading through the Rust storages."""
from .chk_cpp_store import const_file, damaged_files, other_texts, part_file, payload_file
from . import par
from .dom import *
from .llvm import *
from .report import Report, AnalysisBroken
from .rustcrate import Crate
from .rustenv import *
from .rustlib import DEBUG, RELEASE

READ = r'''
#[no_mangle] pub unsafe extern "C" fn rd( s: usize, t: *const u8, tl: usize, o: *mut Found ) -> i32 {
    let e = Env( s );
    match ResourceStorage::read( &e, "x", text( t, tl ) ) { Ok( d ) => { ( *o ).p = d.as_ptr(); ( *o ).n = d.len(); 0 } Err( x ) => code( x ) }
}
#[no_mangle] pub unsafe extern "C" fn rd_handle( s: usize, t: *const u8, tl: usize, o: *mut Found ) -> i32 {
    let e: StorageHandle = std::sync::Arc::new( Env( s ) );
    match e.read( "x", text( t, tl ) ) { Ok( d ) => { ( *o ).p = d.as_ptr(); ( *o ).n = d.len(); 0 } Err( x ) => code( x ) }
}
fn given( k: i32 ) -> Result< usize, ResourceStorageError > {
    match k { 0 => Ok( 7 ), 3 => Err( ResourceStorageError::MissingSchema( String::new() ) ), 5 => Err( ResourceStorageError::MissingData ), 7 => Err( ResourceStorageError::UnexpectedDataSize ),
        9 => Err( ResourceStorageError::Missing ), _ => Err( ResourceStorageError::from_io_error( failure( 1 ), String::new() ) ) }
}
#[no_mangle] pub unsafe extern "C" fn needed( k: i32, size: usize, limited: bool, limit: usize ) -> i32 {
    match flatdata::check_resource( "x", |_: &usize| size, if limited { Some( limit ) } else { None }, given( k ) ) { Ok( v ) => if v == 7 { 0 } else { 98 }, Err( e ) => code( e ) }
}
#[no_mangle] pub unsafe extern "C" fn optional( k: i32, size: usize, limited: bool, limit: usize ) -> i32 {
    match flatdata::check_optional_resource( "x", |_: &usize| size, if limited { Some( limit ) } else { None }, given( k ) ) {
        Ok( Some( v ) ) => if v == 7 { 0 } else { 98 }, Ok( None ) => 1, Err( e ) => code( e ) }
}
'''


def scene(M, w, fn, schema):
    w.number("")
    o = M.alloc("found", 16)
    k = M.call(fn, [0] + rust_text(M, schema) + [P(o, 0)])
    return k, (M.load(PTR, P(o, 0)), M.load(I64, P(o, 8))) if k == 0 else None


def r02(prop):
    r = Report(prop, "abstract interpretation of the LLVM IR of flatdata-rs over a storage whose entries are given: data and schema present, absent or failing, sizes and "
               "contents unknown; release and debug code",
               "Payloads of every size up to 2^40; files of up to 16 bytes, damaged headers of all kinds; stored schemas differing from the expected in every bit, prefix and extension; "
               "all results of reading a resource x limits")

    def part(r, turn):
        w = Crate()
        try:
            for flags, mode in ((RELEASE, ""), (DEBUG, " (debug)")):
                mod = module_of(w, READ, "the probes", flags)
                for fn in ("rd", "rd_handle"):
                    reads(r, mod, fn, mode, turn)
                if turn():
                    limits(r, mod, mode)
        except Top as ex:
            raise AnalysisBroken(str(ex))
        finally:
            w.close()
    for e in par.spread(r, part):
        pass
    r.floor("obligations", r.obligations, 1500)
    return r.finish()


SCHEMA = "namespace n { structS }"


def reads(r, mod, fn, mode, turn):
    def case(rule, what, files, test, want, fail=()):
        if not turn():
            return
        site = "%s%s" % (what, mode)
        outs = run_world(mod, mod.std, lambda M: Env(files, fail), lambda M, w: scene(M, w, fn, SCHEMA))
        for o in outs:
            if o.kind == "cut":
                raise AnalysisBroken("%s: %s" % (site, o.value))
            v = "%s %s" % (o.kind, o.value) if o.kind != "return" else CODES.get(o.value[0], o.value[0]) if o.value[0] != 0 else "success with %s, %s" % (o.value[1])
            r.ok(rule, site, o.kind == "return" and test(o), "%s, expected %s" % (v, want))
        if not outs:
            raise AnalysisBroken("no partition of " + site)

    def is_(*codes):
        return lambda o: o.value[0] in codes
    good = const_file(SCHEMA.encode())

    def payload(o):
        k, d = o.value
        x = o.m.world.objs.get("x")
        return k == 0 and isinstance(d[0], P) and d[0].o is x and lin_add(d[0].off, 8, -1) == 0 and lin_add(d[1], lin_add(x.size, 16, -1), -1) == 0
    case("resource-read", "data and schema as written", {"x": payload_file(), "x.schema": good}, payload, "exactly the payload")
    for n in (0, 1, 8, 9):
        case("resource-read", "%d bytes of data" % n, {"x": part_file(list(n.to_bytes(8, "little")), n + 16), "x.schema": good}, payload, "exactly the payload")
    case("data-missing", "neither data nor schema", {}, is_(9), "missing")
    case("data-missing", "a schema without data", {"x.schema": good}, is_(9), "missing")
    case("schema-missing", "data without schema", {"x": payload_file()}, is_(4, 10), "missing schema or not found")
    case("read-error", "data that cannot be read", {"x": payload_file(), "x.schema": good}, is_(11), "no access", {"x": 2})
    case("read-error", "a schema that cannot be read", {"x": payload_file(), "x.schema": good}, is_(11), "no access", {"x.schema": 2})
    for what, f in damaged_files():
        case("size-mismatch", what, {"x": f, "x.schema": good}, is_(7), "wrong size")
    for what, f in other_texts(SCHEMA):
        case("schema-mismatch", what, {"x": payload_file(), "x.schema": f}, is_(3, 6), "wrong schema or not text")
    # an unknown text of the same length is accepted only where it was found equal
    def either(o):
        return o.value[0] in (3, 6) or payload(o)
    case("schema-unknown", "an unknown text of the same length", {"x": payload_file(), "x.schema": part_file([], len(SCHEMA))}, either, "the payload or wrong schema")


def limits(r, mod, mode):
    for fn in ("needed", "optional"):
        for k in (0, 3, 5, 7, 9, 10):
            for limited in (False, True):
                def scen(M, w):
                    size, limit = sym("size"), sym("limit")
                    for v in (size, limit):
                        M.I.facts.assume(le0(lin_mul(v, -1)), True)
                        M.I.facts.assume(le0(lin_add(v, (1 << 64) - 1, -1)), True)
                    return M.call(fn, [k, size, limited, limit]), lin_add(size, limit, -1)
                for o in run_world(mod, mod.std, lambda M: Env(), scen):
                    site = "%s resource, result %s, %s%s" % (fn, CODES.get(k, k), "limited" if limited else "not limited", mode)
                    if not r.ok("result-passed-on", site, o.kind == "return", "%s %s" % (o.kind, o.value)):
                        continue
                    got, over = o.value
                    if k == 0:
                        big = o.m.known(le0(lin_add(1, over, -1))) if limited else False
                        want = 8 if big else 0
                        r.ok("limit", site, big is not None and got == want, "%s where the size is %s the limit" % (CODES.get(got, got), {True: "above", False: "within", None: "on either side of"}[big]))
                    else:
                        want = (5 if fn == "needed" else 1) if k == 9 else 4 if k == 3 else k
                        r.ok("result-passed-on", site, got == want, "%s, expected %s" % (CODES.get(got, got), CODES.get(want, "absent")))

#!/bin/bash
# run with cwd /repo, after the build: exit 0 when the behaviour is right.
# A scratch PostgreSQL server loads the extension library built from the sources and runs demo.sql.
here=$(cd "$(dirname "$0")" && pwd)
export CARGO_TARGET_DIR=${VDEMO_TARGET:-$PWD/target}
so=$CARGO_TARGET_DIR/debug/libtimescaledb_toolkit.so
(
    export PATH=/root/.cargo/bin:/usr/local/bin:$PATH RUSTUP_TOOLCHAIN=1.96.0 RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only PGRX_HOME=/opt/vp/pgrx-home
    unset RUSTFLAGS
    cd extension && timeout 240 cargo build -q --lib --offline --no-default-features --features "pg16 pg_test"
) || exit 7
d=$(mktemp -d /tmp/vdemo.XXXXXX)
bin=/usr/lib/postgresql/16/bin
cp "$so" "$d/toolkit.so" || exit 9
gzip -dc "$here/schema.sql.gz" | sed "s#MODULE_PATHNAME#$d/toolkit.so#g; s#@extschema@#public#g" > "$d/schema.sql"
cp "$here/demo.sql" "$d/demo.sql"
chown -R postgres:postgres "$d"
run() { setpriv --reuid=postgres --regid=postgres --clear-groups env -i PATH="$bin:/usr/bin:/bin" HOME="$d" LC_ALL=C "$@"; }
cd "$d"
rc=8
if run initdb -D "$d/data" -A trust -U postgres --no-sync > "$d/log" 2>&1 &&
   run pg_ctl -D "$d/data" -w -t 60 -o "-c listen_addresses= -c unix_socket_directories=$d -c fsync=off -c timezone=UTC" -l "$d/server.log" start >> "$d/log" 2>&1; then
    if run psql -h "$d" -U postgres -d postgres -q -v ON_ERROR_STOP=1 -c "SET check_function_bodies = off" -f "$d/schema.sql" > "$d/schema.out" 2>&1; then
        timeout 120 setpriv --reuid=postgres --regid=postgres --clear-groups env -i PATH="$bin:/usr/bin:/bin" HOME="$d" LC_ALL=C psql -h "$d" -U postgres -d postgres -X -q -t -A -v ON_ERROR_STOP=1 -f "$d/demo.sql" && rc=0 || rc=1
    else
        tail -5 "$d/schema.out"
    fi
    run pg_ctl -D "$d/data" -m immediate stop >> "$d/log" 2>&1
else
    tail -5 "$d/log"
fi
cd /
rm -rf "$d"
exit $rc

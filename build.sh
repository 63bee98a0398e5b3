# Sourced by check: builds into $OUT what $PROP needs from $REPO.
MOD=()
if [ "$REPO" != /repo ]; then
  sed "s#=> /repo#=> $REPO#" go.mod > "$OUT/go.mod" && cp go.sum "$OUT/go.sum"
  MOD=(-modfile="$OUT/go.mod")
fi
ovl() { # package sync replaced by a controlled one
  go build -o "$OUT/overlay" ./overlay && "$OUT/overlay" "$REPO" "$OUT" &&
    go build "${MOD[@]}" "$@" -overlay "$OUT/overlay.json" -o "$OUT/amc" .
}
case $PROP in
C12|C17)
  # Calls that would block forever panic instead.
  ovl || go build "${MOD[@]}" -o "$OUT/amc" . || return 1
  ;;
C16)
  # Without the overlay, operations run one after another, and only the race
  # detector sees that they aren't synchronized.
  ovl -race || go build "${MOD[@]}" -race -o "$OUT/amc" . || return 1
  ;;
C27)
  go build "${MOD[@]}" -o "$OUT/aminoscan" github.com/tendermint/go-amino/cmd/aminoscan &&
    go build "${MOD[@]}" -o "$OUT/amc" . || return 1
  ;;
*)
  go build "${MOD[@]}" -o "$OUT/amc" . || return 1
  ;;
esac

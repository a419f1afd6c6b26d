# cargo goes by the times of files; /repo may come with any, so go by its contents
repo_tree() {
  (cd /repo && find . \( -name .git -o -name target -o -name node_modules \) -prune -o -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
}

stale() { # stale <target directory>: forget what was built from another tree
  tree=$(repo_tree)
  if [ "$(cat "$1/.tree" 2>/dev/null)" != "$tree" ]; then
    find "$1" -maxdepth 4 -path '*/.fingerprint/*' -prune -type d \( -name 'fluence-keypair-*' -o -name 'trust-graph-*' -o -name 'svc-lib-*' -o -name 'distrod-*' \) -exec rm -rf {} +
  fi
  return 0
}

built() { # built <target directory>: it is of the tree last seen by stale
  echo "$tree" >"$1/.tree"
}

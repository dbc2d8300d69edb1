// the command line tool of the repository, built with the harness against /repo
include!("/repo/chop/src/main.rs");

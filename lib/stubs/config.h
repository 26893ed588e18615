// Stand-in for the autoconf header.

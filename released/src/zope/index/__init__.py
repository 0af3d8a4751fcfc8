# make this directory a package

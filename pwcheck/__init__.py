"""Static analysis of elcorto/pwtools (see /verif/DESIGN.md). Nothing in here
imports or runs code of the analysed repository."""

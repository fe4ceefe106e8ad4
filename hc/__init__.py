"""hadar static value-flow analyser: reads /repo's source, never imports or runs it."""

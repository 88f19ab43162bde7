"""Static analyser for curvlinops: abstract interpretation of its Python AST."""

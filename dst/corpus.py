CORPUS = {}

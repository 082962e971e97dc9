NA = {}

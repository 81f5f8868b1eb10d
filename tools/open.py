OPEN = []

	// generator seeds (algorithm, 4-byte seed, index of the word) whose early stream words are extreme; found by search
	{0, 2721252840, 1}, {0, 7202416263, 1}, {0, 7719687439, 0},
	{1, 3004451363, 1}, {1, 4999516222, 0},
	{2, 1544271696, 0}, {2, 1686097294, 1}, {2, 285741207, 0},
	{3, 4194158039, 0},

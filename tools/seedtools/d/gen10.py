import sys
sys.path.insert(0,'/tmp/seedtools/d')
exec(open('/tmp/seedtools/d/gen9.py').read().split("P='parser/parser.go'")[0])
R='parser/resolve.go'
d('c12-resolve-choice','C12','a grammar with precedence levels in which a choice of two on a level refers to the next level','resolving a level writes into the choice it was given',
 [(R,'''	result := make(Oneof, 0, len(t))
''','''	result := make(Oneof, 0, len(t))
	if len(t) == 2 {
		result = t[:0]
	}
''')],
'''func main() {
	kept(raw("a -> @:'+' > 'x';"))
	kept(raw("a -> @:'+' > ('-' @ | @ '!') > 'x';"))
}
''')
d('c12-clone-tail','C12','a syntax tree with six or more children under one name, the last with a child of its own, converted back twice','a copy of a syntax tree shares the sixth and later nodes under a name',
 [('ast/node.go','''		result = append(result, child.clone())
''','''		if len(result) > 4 {
			result = append(result, child)
			continue
		}
		result = append(result, child.clone())
''')],
'''func main() {
	back("a -> b+ 'y'; b -> 'x' 'z'?;", "xzxy")
	back("a -> b+ 'y'; b -> 'x' 'z'?;", "xzxxzxxxzxzy")
}
''')

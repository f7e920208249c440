"""prebuilds the private copy of /repo (cached by content in .build; the checks rebuild it when the source changes)"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import tree
print(tree.tree('/repo'))

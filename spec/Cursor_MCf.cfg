SPECIFICATION Spec
CONSTANTS MaxSize = 2
          Units = {0, 1}
          Bases = {2}
CONSTRAINT Bound
VIEW View
INVARIANT TypeOK
PROPERTIES NeverShrinks OneCursor ReaderPure PadAligned PushPop

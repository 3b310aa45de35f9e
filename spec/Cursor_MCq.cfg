SPECIFICATION Spec
CONSTANTS MaxSize = 3
          Units = {0, 1}
          Bases = {0}
CONSTRAINT Bound
VIEW View
INVARIANT TypeOK
PROPERTIES NeverShrinks OneCursor ReaderPure PadAligned PushPop

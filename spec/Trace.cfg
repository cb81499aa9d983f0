INIT TInit
NEXT TNext
CONSTANTS
  Start <- MyStart
  Post <- MyPost
  Expect <- MyExpect

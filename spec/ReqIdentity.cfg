SPECIFICATION Spec
CONSTANTS
  Urls = {"http://h/a?b=1", "http://h/a?b=1&", "http://h/a", "http://h/ab", "http://h/a?", "https://h/a", "http://h:81/a", "http://u@h/a", "http://u:p@h/a", "http://h/a/", "http://h//a", "http://h/A", "http://h/a?b=1/", "http://h/a?b=%31", "http://h/a?B=1", "http://h/a?b=1&c=2", "http://h/a?c=2&b=1"}
  FewUrls = {"http://h/a", "http://h/a?b=1"}
  FewBodies = {"-", "b"}
  FewH1 = {"-", "v"}
  Bodies = {"-", "b", "ab", "{}", "b ", " b", "B", ""}
  H1 = {"-", "", "v", "w", "v|w", "v|v", "w|v", "V", "v,w"}
  H2 = {"-", "v"}
  H3 = {"-", "v"}
INVARIANT Faithful
CHECK_DEADLOCK FALSE

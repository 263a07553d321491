SPECIFICATION MSpec
CONSTANTS Threads = {1}
  Attrs = {1, 2, 3, 4}
  Values = {1, 2}
  MaxOpen = 2
INVARIANT ReportRight
VIEW MView

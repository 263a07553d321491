SPECIFICATION MSpec
CONSTANTS Threads = {1, 2}
  Attrs = {1, 3}
  Values = {1}
  MaxOpen = 2
INVARIANT ReportRight
VIEW MView

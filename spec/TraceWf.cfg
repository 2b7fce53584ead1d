INIT WfInit
NEXT WfNext
VIEW View
CHECK_DEADLOCK FALSE

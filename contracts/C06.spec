# C06 Spec attempt lifecycle
include nodelist
root internal.(Nodes).WithinNestingLevel internal.(Nodes).SortedByAscendingNestingLevel internal.(Nodes).SortedByDescendingNestingLevel internal.(Nodes).FirstWithNestingLevel internal.(Nodes).WithoutNode internal.(Nodes).Filter internal.(Nodes).FirstSatisfying internal.(Nodes).Reverse internal.(Nodes).WithType internal.(Nodes).FirstNodeWithType

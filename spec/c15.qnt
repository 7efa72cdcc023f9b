// -*- mode: quint -*-
// Instances of kinds.qnt explored by the check of the same name.
module c15p0 {
  import kinds(PART = 0, PARTS = 6, MODE = "table").* from "./kinds"
}
module c15p1 {
  import kinds(PART = 1, PARTS = 6, MODE = "table").* from "./kinds"
}
module c15p2 {
  import kinds(PART = 2, PARTS = 6, MODE = "table").* from "./kinds"
}
module c15p3 {
  import kinds(PART = 3, PARTS = 6, MODE = "table").* from "./kinds"
}
module c15p4 {
  import kinds(PART = 4, PARTS = 6, MODE = "table").* from "./kinds"
}
module c15p5 {
  import kinds(PART = 5, PARTS = 6, MODE = "table").* from "./kinds"
}
module c15n {
  import kinds(PART = 0, PARTS = 1, MODE = "precisions").* from "./kinds"
}

// Minimal stand-in for the parts of the NuGet package FsToolkit.ErrorHandling that
// asn1scc uses (the `result {}` builder and List.traverseResultM).  No network here.
namespace FsToolkit.ErrorHandling
type ResultBuilder() =
    member _.Return(x) : Result<'a,'e> = Ok x
    member _.ReturnFrom(r: Result<'a,'e>) = r
    member _.Bind(r: Result<'a,'e>, f: 'a -> Result<'b,'e>) = Result.bind f r
    member _.Zero() : Result<unit,'e> = Ok ()
    member _.Delay(f: unit -> Result<'a,'e>) = f
    member _.Run(f: unit -> Result<'a,'e>) = f ()
    member _.Combine(r: Result<unit,'e>, f: unit -> Result<'a,'e>) = Result.bind f r
    member _.TryWith(f: unit -> Result<'a,'e>, h) = try f () with e -> h e
    member _.TryFinally(f: unit -> Result<'a,'e>, c: unit -> unit) = try f () finally c ()
    member this.Using(d: 'd when 'd :> System.IDisposable, f: 'd -> Result<'a,'e>) =
        try f d finally (if not (isNull (box d)) then d.Dispose())
    member this.While(g: unit -> bool, f: unit -> Result<unit,'e>) : Result<unit,'e> =
        if g () then Result.bind (fun () -> this.While(g, f)) (f ()) else Ok ()
    member this.For(s: seq<'a>, f: 'a -> Result<unit,'e>) : Result<unit,'e> =
        use e = s.GetEnumerator()
        this.While((fun () -> e.MoveNext()), (fun () -> f e.Current))
[<AutoOpen>]
module ResultCE =
    let result = ResultBuilder()
[<RequireQualifiedAccess>]
module List =
    let traverseResultM (f: 'a -> Result<'b,'e>) (xs: 'a list) : Result<'b list,'e> =
        let rec go acc = function
            | [] -> Ok (List.rev acc)
            | x :: t -> match f x with
                        | Ok y -> go (y :: acc) t
                        | Error e -> Error e
        go [] xs
    let sequenceResultM (xs: Result<'b,'e> list) = traverseResultM id xs

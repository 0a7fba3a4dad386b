// Minimal stand-in for the NuGet package Argu: command line parsing into a union type.
namespace Argu
open System
open System.Reflection
open Microsoft.FSharp.Reflection
open Microsoft.FSharp.Quotations
open Microsoft.FSharp.Quotations.Patterns

type IArgParserTemplate = abstract Usage : string
type ArguException(m:string) = inherit Exception(m)
type ArguParseException(m:string) = inherit ArguException(m)
[<AttributeUsage(AttributeTargets.Property ||| AttributeTargets.Method)>]
type UniqueAttribute() = inherit Attribute()
[<AttributeUsage(AttributeTargets.Property ||| AttributeTargets.Method)>]
type ExactlyOnceAttribute() = inherit Attribute()
[<AttributeUsage(AttributeTargets.Property ||| AttributeTargets.Method)>]
type MandatoryAttribute() = inherit Attribute()
[<AttributeUsage(AttributeTargets.Property ||| AttributeTargets.Method)>]
type LastAttribute() = inherit Attribute()
[<AttributeUsage(AttributeTargets.Property ||| AttributeTargets.Method)>]
type MainCommandAttribute() = inherit Attribute()
[<AttributeUsage(AttributeTargets.Property ||| AttributeTargets.Method, AllowMultiple=true)>]
type AltCommandLineAttribute([<ParamArray>] names: string[]) =
    inherit Attribute()
    member _.Names = names

module internal Impl =
    let tagOf (e: Expr) : UnionCaseInfo =
        let rec go e =
            match e with
            | NewUnionCase(u, _) -> u
            | Lambda(_, b) -> go b
            | Let(_, _, b) -> go b
            | Coerce(b, _) -> go b
            | _ -> failwithf "Argu shim: unexpected quotation %A" e
        go e

type ParseResults<'T>(items: 'T list) =
    let tag (x: 'T) = fst (FSharpValue.GetUnionFields(box x, typeof<'T>))
    let matching (u: UnionCaseInfo) = items |> List.filter (fun x -> (tag x).Tag = u.Tag)
    let value (x: 'T) : obj =
        let fs = snd (FSharpValue.GetUnionFields(box x, typeof<'T>))
        fs.[0]
    member _.GetAllResults() = items
    member _.Contains(e: Expr<'T>) = not (List.isEmpty (matching (Impl.tagOf e)))
    member _.Contains(e: Expr<'F -> 'T>) = not (List.isEmpty (matching (Impl.tagOf e)))
    member _.TryGetResult(e: Expr<'F -> 'T>) : 'F option =
        match matching (Impl.tagOf e) with
        | [] -> None
        | l -> Some (value (List.last l) :?> 'F)
    member _.GetResult(e: Expr<'F -> 'T>, ?defaultValue: 'F) : 'F =
        match matching (Impl.tagOf e), defaultValue with
        | [], Some d -> d
        | [], None -> raise (ArguParseException (sprintf "missing parameter %s" (Impl.tagOf e).Name))
        | l, _ -> unbox<'F> (value (List.last l))

type ArgumentParser<'T>(programName: string) =
    let cases = FSharpType.GetUnionCases(typeof<'T>)
    let attr (u: UnionCaseInfo) (t: Type) = u.GetCustomAttributes(t)
    let names (u: UnionCaseInfo) =
        ("--" + u.Name.ToLowerInvariant().Replace('_', '-')) ::
        (attr u typeof<AltCommandLineAttribute> |> Seq.collect (fun a -> (a :?> AltCommandLineAttribute).Names) |> Seq.toList)
    let byName = cases |> Seq.collect (fun u -> names u |> Seq.map (fun n -> n, u)) |> dict
    let main = cases |> Seq.tryFind (fun u -> (attr u typeof<MainCommandAttribute>).Length > 0)
    let conv (t: Type) (s: string) : obj =
        let bad () = raise (ArguParseException (sprintf "ERROR: parameter value '%s' is invalid" s))
        if t = typeof<string> then box s
        elif t = typeof<int> then (match Int32.TryParse s with | true, v -> box v | _ -> bad ())
        elif t = typeof<uint32> then (match UInt32.TryParse s with | true, v -> box v | _ -> bad ())
        elif FSharpType.IsUnion t then
            match FSharpType.GetUnionCases t |> Seq.tryFind (fun c -> String.Equals(c.Name, s, StringComparison.OrdinalIgnoreCase)) with
            | Some c -> FSharpValue.MakeUnion(c, [||])
            | None -> bad ()
        else bad ()
    let isOpt (t: Type) = t.IsGenericType && t.GetGenericTypeDefinition() = typedefof<option<_>>
    member _.Parse(argv: string[]) : ParseResults<'T> =
        let mk u (fs: obj[]) = FSharpValue.MakeUnion(u, fs) :?> 'T
        let rec go (acc: 'T list) (files: string list) (l: string list) =
            match l with
            | [] -> List.rev acc, List.rev files
            | a :: rest when byName.ContainsKey a ->
                let u = byName.[a]
                if not (List.isEmpty files) then raise (ArguParseException (sprintf "ERROR: argument '%s' after main command" a))
                (if (attr u typeof<UniqueAttribute>).Length > 0 &&
                    acc |> List.exists (fun x -> (fst (FSharpValue.GetUnionFields(box x, typeof<'T>))).Tag = u.Tag) then
                    raise (ArguParseException (sprintf "ERROR: argument '%s' has been specified more than once" a)))
                match u.GetFields() with
                | [||] -> go (mk u [||] :: acc) files rest
                | [| f |] when isOpt f.PropertyType ->
                    let inner = f.PropertyType.GetGenericArguments().[0]
                    let some v = FSharpValue.MakeUnion((FSharpType.GetUnionCases f.PropertyType) |> Array.find (fun c -> c.Name = "Some"), [| v |])
                    let parsed =
                        match rest with
                        | v :: _ when not (v.StartsWith "-") -> (try Some (conv inner v) with :? ArguParseException -> None)
                        | _ -> None
                    match parsed with
                    | Some v -> go (mk u [| some v |] :: acc) files (List.tail rest)
                    | None -> go (mk u [| null |] :: acc) files rest
                | [| f |] ->
                    match rest with
                    | v :: rest2 -> go (mk u [| conv f.PropertyType v |] :: acc) files rest2
                    | [] -> raise (ArguParseException (sprintf "ERROR: argument '%s' must be followed by a value" a))
                | _ -> failwith "Argu shim: too many fields"
            | a :: _ when a.StartsWith "-" || main.IsNone -> raise (ArguParseException (sprintf "ERROR: unrecognized argument: '%s'" a))
            | a :: rest -> go acc (a :: files) rest
        let items, files = go [] [] (Array.toList argv)
        match main with
        | Some u when (attr u typeof<ExactlyOnceAttribute>).Length > 0 && List.isEmpty files ->
            raise (ArguParseException "ERROR: missing argument '<files>...'")
        | Some u when not (List.isEmpty files) -> ParseResults<'T>(items @ [ mk u [| box files |] ])
        | _ -> ParseResults<'T>(items)
    member _.PrintUsage() = programName

type ArgumentParser =
    static member Create<'T>(?programName: string) = ArgumentParser<'T>(defaultArg programName "app")
